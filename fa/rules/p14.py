"""Every conversion from an integer type into the progress types, and both resets, on every path: the range the path
requires of the argument is compared with the outcome.  Success requires 1..=u32::MAX, the empty-total error 0, the
overflow error everything else (the paths partition all inputs, so the converses follow); on success the packed counter
holds exactly that total with nothing done, and the run state is active."""
from .. import par, witness
from ..prog import *

U32 = (1 << 32) - 1
INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}


def layout(p, w):
    """done-high / done-low: the half that increment_n adds to is "done"."""
    for b in p.entries():
        if b["path"].endswith("::increment_n"):
            r, E = p.run(b, trace_if=lambda l: True)
            ty = E.p.ty("u64")
            for s, v in r or []:
                for e in s.events():
                    if e.kind == "armw" and e.args[0] == w.done:
                        o, n = E.resimp(s, e.args[1]), E.resimp(s, e.args[2])
                        if E.decide(s, EQ(E.binop(s, "BitAnd", o, INT(U32), ty, ty), E.binop(s, "BitAnd", n, INT(U32), ty, ty))) is True:
                            return 32, 0
                        if E.decide(s, EQ(E.binop(s, "Shr", o, INT(32), ty, ty), E.binop(s, "Shr", n, INT(32), ty, ty))) is True:
                            return 0, 32
    return 32, 0


def samples(x):
    return sorted({-(1 << 127), -(1 << 63), -(1 << 32), -256, -2, -1, 0, 1, 2, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, U32 - 1, U32, U32 + 1, U32 + 2, (1 << 33), (1 << 33) + 5, (1 << 63) - 1,
                   1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 127) - 1, (1 << 128) - 1})


def domain(E, ty):
    """(lo, hi) of the integer type, or of the integer inside NonZero; None otherwise."""
    t = E.tyinfo(ty)
    n = t.get("s", "")
    if n in INTS:
        return E.int_range(ty)
    if n.startswith("std::num::NonZero<"):
        r = E.int_range(t["args"][0])
        return r and (max(r[0], 1), r[1]) if r and r[0] >= 0 else None
    return None


def require(ctx, E, s, x, dom, ok, key, text, good):
    """Does the path imply ok(x)?  ok is a list of (lo, hi) intervals."""
    lo, hi = E.lin_bound(s, x)
    lo = dom[0] if lo is None else max(lo, dom[0])
    hi = dom[1] if hi is None else min(hi, dom[1])
    if lo == hi or any(a <= lo and hi <= b for a, b in ok):
        if any(a <= lo and hi <= b for a, b in ok):
            ctx.oblige(True, key, text, good)
            return
    vals = [v for v in samples(x) + [lo, hi] if dom[0] <= v <= dom[1] and not any(a <= v <= b for a, b in ok)]
    wit = None
    for v in vals:
        if witness.holds(s, {x: v}, E) is True:
            wit = v
            break
    if wit is None and not vals:
        ctx.oblige(True, key, text, good)
        return
    ctx.oblige(False if wit is not None and not s.weak else None, key, "%s (e.g. %s)" % (text, wit), good)


def started(ctx, E, s, x, v, w, sh, key, name, T_):
    """The freshly made state: counter and flags."""
    bad = None if s.weak else False
    inner = None
    for r, c in s.mem.items():
        if r.op == "h" and (E.tyinfo(E.typeof(c)) or {}).get("path") == w.done.rsplit(".", 1)[0] and r in atoms(v):
            inner = c
    if v.op == "agg" and (E.tyinfo(v.a[0]) or {}).get("path") == w.done.rsplit(".", 1)[0]:
        inner = v
    if inner is None or inner.op != "agg":
        return None
    names = [f[0] for f in E.tyinfo(inner.a[0])["vars"][0][2]]
    d = inner.a[2][names.index(w.done.rsplit(".", 1)[1])]
    f = inner.a[2][names.index(w.flags.rsplit(".", 1)[1])]
    if d.op == "app" and d.a[0] == "new":
        d, f = d.a[2], f.a[2]
        counter(ctx, E, s, x, d, sh, key, name)
        fl = E.decide(s, EQ(E.binop(s, "BitAnd", f, INT(w.bit), E.p.ty("u8"), E.p.ty("u8")), INT(w.bit)))
        ctx.oblige(True if fl is True else bad if f.op == "int" else None, "running|" + key, "%s: starts in a state (%s) that is not running" % (name, show(f)), "%s: running" % name)
    return inner


def counter(ctx, E, s, x, d, sh, key, name):
    want = E.simp(s, scale(x, 1 << sh[1]))
    d = E.resimp(s, d)
    v = E.decide(s, EQ(d, want))
    if v is not True:
        # concrete witness
        r, wit = witness.settle(E, s, EQ(d, want))
        v = r
    ctx.oblige(True if v is True else (None if s.weak or v is None else False), "total|" + key, "%s: starts with counter %s instead of nothing done out of %s" % (name, show(d)[:80], show(x)),
               "%s: nothing done, total %s" % (name, show(x)))


def run_config(ctx, cfg):
    w = World(cfg, only=())
    if w.role is None:
        ctx.undecide("roles|" + cfg, "could not identify the counter")
        return
    p = Prog(cfg)
    sh = layout(p, w)
    own = w.done.rsplit(".", 1)[0]
    generic = set()
    for b in p.P.list:
        last = b["path"].split("::")[-1]
        if not b["local"] or not b["identity"] or last not in ("from", "try_from", "reset", "try_reset") or b["impl_self"] not in ("progress::Progless", own):
            continue
        reset = last in ("reset", "try_reset")
        if reset and not (b["public"] and b["impl_self"] == "progress::Progless"):
            continue
        r, E = p.run(b, trace_if=lambda l: True)
        name = b["path"]
        key = "%s|%s" % (name, cfg)
        aty = b["locals"][2 if reset else 1]
        dom = domain(E, aty)
        if r is None:
            if dom:
                ctx.undecide("stuck|" + key, "could not analyse " + name)
            continue
        for q in E.panics:
            ctx.undecide("panic|" + key, "%s may panic: %s" % (name, str(q)[:120]))
        x = mk("sym", "a1" if reset else "a0", aty)
        if dom is None:
            if (E.tyinfo(aty) or {}).get("k") == "param":
                # the blanket conversion: the inner value must be the argument's conversion
                for s, v in r:
                    keep = [c for rt, c in s.mem.items() if rt.op == "h" and c.op == "app" and c.a[0] in ("into", "from") and c.a[2] is x]
                    ctx.oblige(True if keep else None, "blanket|" + key, "%s: does not keep the converted value" % name, "%s: wraps the converted total" % name)
                    ctx.count("conversions")
            continue
        for s, v in r:
            bad = None if s.weak else False
            t = E.tyinfo(b["locals"][0]) or {}
            var = v.a[1] if v.op == "agg" else None
            isres = t.get("path") == "std::result::Result"
            if isres and var is None:
                ctx.undecide("result|" + key, "unknown result of " + name)
                continue
            ctx.count("outcomes")
            if isres and var == 1:
                e = v.a[2][0]
                et = E.tyinfo(E.typeof(e)) or {}
                if e.op != "agg" or not et.get("vars"):
                    ctx.undecide("error|" + key, "unknown error of " + name)
                    continue
                kind = et["vars"][e.a[1]][0]
                if kind == "EmptyTotal":
                    require(ctx, E, s, x, dom, [(0, 0)], "empty|" + key, "%s: reports an empty total for a total that is not zero" % name, "%s: EmptyTotal only for 0" % name)
                elif kind == "TotalOverflow":
                    require(ctx, E, s, x, dom, [(-(1 << 200), -1), (U32 + 1, 1 << 200)], "overflow|" + key, "%s: reports an overflow for a total in range" % name, "%s: TotalOverflow only out of range" % name)
                else:
                    ctx.oblige(bad, "error|" + key, "%s: reports %s" % (name, kind))
                if reset:
                    touched = [e for e in s.events() if e.kind in ("astore", "armw") and e.args[0] in (w.done, w.flags)]
                    ctx.oblige(True if not touched else bad, "touched|" + key, "%s: a refused reset changes the run" % name, "%s: refused without touching the run" % name)
                continue
            require(ctx, E, s, x, dom, [(1, U32)], "accepted|" + key, "%s: accepts a total outside 1..=u32::MAX" % name, "%s: accepts only 1..=u32::MAX" % name)
            if reset:
                ev = s.events()
                d = [e for e in ev if e.kind in ("astore", "armw") and e.args[0] == w.done]
                if not d or d[-1].kind != "astore":
                    ctx.undecide("counter|" + key, "%s: last counter update is not a store" % name)
                else:
                    counter(ctx, E, s, x, d[-1].args[1], sh, key, name)
                f = [e for e in ev if e.kind in ("astore", "armw") and e.args[0] == w.flags]
                lastf = f[-1] if f else None
                val = lastf.args[1] if lastf is not None and lastf.kind == "astore" else lastf.args[2] if lastf is not None else None
                on = val is not None and E.decide(s, EQ(E.binop(s, "BitAnd", E.resimp(s, val), INT(w.bit), E.p.ty("u8"), E.p.ty("u8")), INT(w.bit)))
                ctx.oblige(True if on is True else bad if on is False else None, "running|" + key, "%s: the run is not active afterwards" % name, "%s: running" % name)
            else:
                got = started(ctx, E, s, x, E.unwrap(v) if hasattr(E, "unwrap") else (v.a[2][0] if isres else v), w, sh, key, name, None)
                if got is None:
                    # a wrapper around an inner conversion that failed to execute
                    ctx.undecide("inner|" + key, "%s: could not find the created state" % name)
                ev = s.events()
                for e in ev:
                    if e.kind in ("astore", "armw") and e.args[0] == w.done:
                        ctx.oblige(None, "later|" + key, "%s: changes the counter after creating it" % name)
            ctx.count("conversions")


def run(ctx):
    par.each(ctx, run_config, ["all", "progress"])
    ctx.floor("conversions", 60)
    ctx.floor("outcomes", 130)
