"""Every constructor and setter of a message is executed symbolically on a message in its most general valid state: one
unknown text per part and the matching table of offsets.  On every path the resulting text must be the concatenation of
the old parts with exactly the target part replaced by exactly the requested text, and the resulting offsets must be the
running totals of those parts' lengths.  That is proved term by term; where the proof fails, values for the unknown texts
that take the path are searched, and only a concrete difference is reported.  Since the old state is arbitrary, the result
covers every sequence of calls."""
import itertools

from .. import par, strev, symmsg
from ..prog import *

TARGET = {"indent": "indent", "timestamp": "timestamp", "prefix": "prefix", "msg": "message", "suffix": "suffix", "newline": "newline", "bytes_saved": "suffix"}
SKIP = {"strip_ansi", "without_ansi", "clone", "fitted", "clone_from"}


def subjects(p):
    """(body, how) for each function that makes or changes a message; how: 'ref', 'value', 'new'."""
    out = []
    for b in p.P.list:
        if not b["identity"] or not b["local"] or b.get("closure_of") or not b["impl_self"]:
            continue
        if not (b["public"] or b["impl_trait"]):
            continue
        last = b["path"].split("::")[-1]
        if last in SKIP:
            continue
        E = p.engine()
        ret = E.tyinfo(b["locals"][0]) or {}
        arg = E.tyinfo(b["locals"][1]) if b["argc"] else None
        arg = arg or {}
        ismsg = lambda t: (t or {}).get("path") == "msg::Msg"
        if arg.get("k") == "ref" and arg.get("mut") and ismsg(E.tyinfo(arg["e"])):
            out.append((b, "ref", arg["e"]))
        elif ismsg(arg) and ismsg(ret):
            out.append((b, "value", b["locals"][1]))
        elif ismsg(ret) and not (arg.get("k") == "ref" and ismsg(E.tyinfo(arg["e"]))):
            out.append((b, "new", b["locals"][0]))
    return out


def strings(t, out):
    """Unknown texts a term depends on."""
    for x in atoms_deep(t):
        out.add(x)
    return out


def atoms_deep(t, seen=None):
    """Bases of text segments and unknown numbers under a term."""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return set()
    seen.add(t)
    out = set()
    derived = lambda x: x.op in ("rope", "lit", "sub", "sr") or x.op == "app" and x.a[0] not in ("as_ref", "prefix") and any(isinstance(y, T) and y.op in ("rope", "sr") for y in x.a[2:])
    if t.op == "sub":
        if not derived(t.a[0]):
            out.add(t.a[0])
    elif t.op == "len" and not derived(t.a[0]):
        out.add(t.a[0])
    elif t.op in ("sym", "ev", "w", "fld", "deref", "app", "discr", "optlen"):
        if t.op != "app" or t.a[0] in ("as_ref", "prefix"):
            out.add(t)
    for x in t.a:
        if isinstance(x, T):
            out |= atoms_deep(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    out |= atoms_deep(y, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            out |= atoms_deep(z, seen)
    return out


def assignments(E, texts, terms, st, cap=9):
    """Values for the unknowns: distinct letters per text, short and long."""
    strs, nums = [], []
    for t in list(texts):
        strs.append(t)
    seen = set(strs)
    for t in terms:
        for x in sorted(atoms_deep(t), key=repr):
            if x in seen:
                continue
            seen.add(x)
            ty = E.typeof(x)
            if ty is not None and E.int_range(ty) is not None:
                nums.append((x, E.int_range(ty)))
            elif ty is not None and (E.tyinfo(ty) or {}).get("k") == "bool":
                nums.append((x, (0, 1)))
            elif used_as_text(x, terms):
                strs.append(x)
    strs, nums = strs[:cap], nums[:3]
    opts = []
    for i, x in enumerate(strs):
        c = bytes([0x61 + i])
        o = [c * 2, b"", c * 5, c + b" ", b" " + c + b"\n", c + "\u00e9\u4e16".encode(), b"\x1b[1m" + c + b"\x1b[0m", c * 300, c * 70000]
        if x.op == "sym" and x.a[0].endswith(":indent"):
            o = [b" " * 4, b"", b" " * 8]
        if x.op == "sym" and x.a[0].endswith(":newline"):
            o = [b"\n", b""]
        opts.append(o)
    nopts = []
    for x, (lo, hi) in nums:
        nopts.append(sorted({lo, min(hi, 1), min(hi, 2), min(hi, 8), min(hi, 9), min(hi, 64), hi}))
    n = 0
    base = [o[0] for o in opts]
    combos = [tuple(base)] + [tuple(base[:i] + [o] + base[i + 1:]) for i in range(len(base)) for o in opts[i][1:]] + [tuple(o[1] for o in opts), tuple(o[-1] for o in opts)]
    combos += [tuple(base[:i] + [a] + base[i + 1:j] + [b] + base[j + 1:]) for i in range(len(base)) for j in range(i + 1, len(base)) for a in opts[i][1:3] for b in opts[j][1:3]]
    for ns in itertools.product(*nopts):
        for cs in combos:
            env = dict(zip(strs, cs))
            env.update(zip([x for x, _ in nums], ns))
            n += 1
            if n > 6000:
                return
            yield env


def used_as_text(x, terms):
    def go(t, seen):
        if not isinstance(t, T) or t in seen:
            return False
        seen.add(t)
        if t.op in ("sub", "len") and t.a[0] is x:
            return True
        for y in t.a:
            if isinstance(y, T) and go(y, seen):
                return True
            if isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T) and go(z, seen):
                        return True
                    if isinstance(z, tuple) and any(isinstance(w, T) and go(w, seen) for w in z):
                        return True
        return False
    seen = set()
    return any(go(t, seen) for t in terms)


def middle(text, before, after):
    """What lies between two known ropes, or None."""
    s, b, a = list(text.a), list(before.a), list(after.a)
    if len(s) < len(a) + len(b) or s[:len(b)] != b or (a and s[-len(a):] != a):
        return None
    return mk("rope", *s[len(b):len(s) - len(a)])


def expect(L, parts, target, repl):
    return [repl if n == target else t for n, t in zip(L.parts, parts)]


def show_env(env):
    return ", ".join("%s=%r" % (show(k)[:40], v[:20] if isinstance(v, bytes) else v) for k, v in list(env.items())[:9])


def judge(ctx, E, s, L, val, want, key, where, texts, args, partial=None):
    """want: one rope per part."""
    z = L.split(E, s, val)
    if z is None:
        ctx.undecide(key + "|shape", "%s: result not understood: %s" % (where, show(val)[:200]))
        return None
    text, offs = z
    exp = cat(*want)
    good_text = E.resimp(s, text) == E.resimp(s, exp) or E.decide(s, mk("same", text, exp)) is True
    sums, n = [ZERO], ZERO
    for w in want:
        n = add(n, rope_len(w))
        sums.append(n)
    bad = [j for j in range(len(sums)) if E.decide(s, EQ(offs[j], sums[j])) is not True]
    ctx.count("texts")
    ctx.count("offsets", len(sums))
    if good_text and not bad:
        ctx.oblige(True, key, None, "%s: text and %d offsets" % (where, len(sums)))
        return z
    # Look for values that take this path and make the difference real.
    conds = list(s.lits) + list(s.ineq) + list(s.rng) + list(s.ne)
    wit = None
    for env in assignments(E, texts, list(text.a) + list(exp.a) + list(offs) + sums + conds, s):
        if strev.consistent(s, env, E) is not True:
            continue
        try:
            g, x = strev.sev(text, env, E), strev.sev(exp, env, E)
            o = [strev.iev(y, env, E) for y in offs]
            w = [strev.iev(y, env, E) for y in sums]
        except strev.Unknown:
            continue
        if g != x or o != w:
            wit = "%s: text %r with offsets %s, not %r with %s" % (show_env(env), g[:80], o, x[:80], w)
            break
    if wit and s.weak is None:
        ctx.violate(key, "%s: %s" % (where, wit))
    else:
        ctx.undecide(key, "%s: text %s, offsets %s not settled%s" % (where, "ok" if good_text else show(text)[:300], bad, " (weak: %s)" % (s.weak,) if s.weak else ""))
    return None


def symbolic(p, b, how, mty, fix={}, base=None, **kw):
    """Runs one function on the most general message; yields (E, L, texts, args, [(state, resulting message)])."""
    E = p.engine(trace_if=lambda l: True, **kw)
    L = symmsg.Layout(E, mty)
    if not L.ok:
        return None
    texts = [whole(mk("sym", "part:" + n, E.p.ty("str"))) for n in L.parts]
    syms = [t.a[0].a[0] for t in texts]
    args = p.symargs(b)
    st = L.state(E, texts, base)
    root = None
    if how == "ref":
        root = mk("l", -1, 0)
        st.mem[root] = L.build(E, texts)
        args[0] = mk("ref", root, ())
    elif how == "value":
        args[0] = L.build(E, texts)
    for i, v in fix.items():
        args[i] = v
    try:
        r = E.run(b["key"], args, st=st)
    except Stuck as e:
        return E, L, texts, syms, args, None
    out = [(s, s.mem.get(root) if how == "ref" else v) for s, v in r]
    return E, L, texts, syms, args, out


def operand(E, s, b, args, i):
    """The text of a string-like argument."""
    a = args[i]
    r = E.as_rope(s, a)
    return r


def panics(ctx, E, b, name):
    for st, kind, detail, at, certain in E.panics:
        if kind in ("assert", "overflow") and not certain and st.weak is None:
            pass
        ctx.count("panic sites")
        ctx.oblige(False if certain and st.weak is None else None, "panic|" + name, "%s can panic: %s %s" % (name, kind, str(detail)[:120]), None)


def run_config(ctx, cfg):
    p = Prog(cfg)
    p.over = {}
    done = []
    for b, how, mty in subjects(p):
        name = b["path"]
        last = name.split("::")[-1]
        x = symbolic(p, b, how, mty)
        if x is None:
            ctx.undecide("layout", "the message type is not a text with offsets")
            return
        E, L, texts, syms, args, res = x
        if res is None:
            ctx.undecide("stuck|" + name, "could not analyse " + name)
            continue
        where = "%s [%s]" % (name, cfg)
        if b["impl_trait"]:
            where = "%s [%s]" % (b["impl_trait"], cfg)
        done.append(where)
        ctx.count("functions")
        panics(ctx, E, b, name)
        target = TARGET.get(last[4:] if last.startswith("set_") else last[5:]) if last.startswith(("set_", "with_")) else None
        for s, v in res:
            if v is None or v.op == "never":
                continue
            key = "%s|%s" % (last, b["impl_trait"] or "")
            z = L.split(E, s, v)
            if z is None:
                ctx.undecide(key + "|shape", "%s: result not understood: %s" % (where, show(v)[:200]))
                continue
            empty = mk("rope")
            if how == "new":
                want = [empty] * len(L.parts)
                mi, pi = L.parts.index("message"), L.parts.index("prefix")
                if last == "new" and b["argc"] == 2:
                    want[pi], want[mi] = prefix_rope(E, s, args[0], z[0]), as_text(E, s, args[1], z[0])
                    judge(ctx, E, s, L, v, want, key, where, syms, args)
                elif last == "from" and not stringy(E, b["locals"][1]):
                    # made of something else: only the bookkeeping is judged
                    good = E.decide(s, EQ(z[1][-1], rope_len(z[0]))) is True and all(E.decide(s, LE(x, y)) is True for x, y in zip(z[1], z[1][1:]))
                    ctx.oblige(True if good else None, key + "|offsets", "%s: offsets %s of %s" % (where, [show(o) for o in z[1]], show(z[0])[:120]))
                elif last == "from":
                    want[mi] = as_text(E, s, args[0], z[0])
                    judge(ctx, E, s, L, v, want, key, where, syms, args)
                elif last == "default":
                    judge(ctx, E, s, L, v, want, key, where, syms, args)
                elif b["argc"] == 1:
                    # a kind's constructor: some prefix, the text, a line break
                    t = as_text(E, s, args[0], z[0])
                    pre = head(z[0], t)
                    if pre is None:
                        ctx.undecide(key, "%s: %s" % (where, show(z[0])[:200]))
                        continue
                    want[pi], want[mi], want[-1] = pre, t, lit(b"\n")
                    judge(ctx, E, s, L, v, want, key, where, syms, args)
                continue
            if target is None:
                ctx.undecide("unknown|" + name, "%s changes a message in a way this rule does not know" % name)
                continue
            if target not in L.parts:
                continue
            ti = L.parts.index(target)
            before, after = cat(*texts[:ti]), cat(*texts[ti + 1:])
            repl = None
            if target in ("message", "suffix") and last != "with_bytes_saved":
                repl = as_text(E, s, args[1], z[0])
            elif target == "prefix":
                repl = prefix_rope(E, s, args[1], z[0])
            elif target in ("newline", "timestamp"):
                on = s_bool(E, s, args[1])
                if on is None:
                    # both: not distinguished on this path
                    ctx.undecide(key, "%s: the switch is not looked at" % where) if target == "timestamp" else None
                    if target == "timestamp":
                        continue
                    wit_switch(ctx, E, s, L, v, z, texts, syms, args, key, where)
                    continue
                if not on:
                    repl = empty
                elif target == "newline":
                    repl = lit(b"\n")
            if repl is None:
                # the new text is not prescribed here (see P28, P31, P43), only its place
                repl = middle(z[0], before, after)
                if repl is None:
                    ctx.undecide(key, "%s: the other parts are not recognised in %s" % (where, show(z[0])[:200]))
                    continue
                if target == "timestamp":
                    ctx.oblige(True if E.decide(s, LT(ZERO, rope_len(repl))) is True else None, key + "|empty", "%s: an enabled part may be empty" % where)
            judge(ctx, E, s, L, v, expect(L, texts, target, repl), key, where, syms, args)
    ctx.analysed.setdefault("functions", []).extend(done)


def wit_switch(ctx, E, s, L, v, z, texts, syms, args, key, where):
    for val, repl in ((1, lit(b"\n")), (0, mk("rope"))):
        judge(ctx, E, s, L, v, expect(L, texts, L.parts[-1], repl), key, where, syms, args)


def stringy(E, ty):
    for _ in range(4):
        t = E.tyinfo(ty) or {}
        if t.get("k") == "ref":
            ty = t["e"]
        else:
            break
    return t.get("k") in ("str", "param") or t.get("path") in ("std::string::String", "std::borrow::Cow", "std::boxed::Box")


def s_bool(E, s, a):
    a = E.resimp(s, a)
    if a.op == "int":
        return bool(a.a[0])
    return E.decide(s, EQ(a, ONE)) if E.decide(s, a) is None else E.decide(s, a)


def as_text(E, s, a, seen):
    """The text of a string-like argument (as it appears in the result, when it is of the caller's own type)."""
    return given(E, s, a, seen, "as_ref")


def given(E, s, a, seen, what):
    for x in sorted(atoms_deep(seen), key=repr):
        if x.op == "app" and x.a[0] == what and len(x.a) > 2 and E.resimp(s, x.a[2]) == E.resimp(s, a):
            return whole(x)
    r = None
    if what == "as_ref":
        try:
            r = E.as_rope(s, a)
        except Exception:
            r = None
    return r if r is not None and r.op == "rope" else whole(mk("app", what, E.p.ty("str"), a))


def prefix_rope(E, s, a, seen):
    return given(E, s, a, seen, "prefix")


def lit(b):
    return mk("rope", mk("lit", b))


def head(rope, tail):
    """Everything up to the first segment of tail."""
    segs = list(rope.a)
    if not tail.a:
        return None
    for i, x in enumerate(segs):
        if x is tail.a[0]:
            return mk("rope", *segs[:i])
    return None


def run(ctx):
    par.each(ctx, run_config, ["default", "timestamps", "progress", "all"])
    ctx.floor("functions", 40)
    ctx.floor("texts", 100)
    ctx.floor("offsets", 600)
    ctx.assumptions = ["a text is at most 2^57 bytes long (the address space)", "as_ref and prefix_str of a caller's own type return the same text every time"]
