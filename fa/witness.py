"""Evaluates symbolic terms for given values of their unknowns: when a proof fails, an assignment that satisfies every
condition on the path and falsifies the goal shows the goal is really false there (otherwise nothing is reported)."""
import itertools

from .terms import *

ARITH = ("mul", "band", "bor", "bxor", "shl", "shr", "div", "rem", "wadd", "wsub", "wmul", "bnot", "cast", "min", "max", "nand")


class Unknown(Exception):
    pass


def rng(E, ty):
    r = E.int_range(ty) if E is not None else None
    return r if r else (0, (1 << 64) - 1)


def ev(t, env, E=None):
    """Integer value of a term (booleans are 0/1)."""
    if not isinstance(t, T):
        raise Unknown()
    if t in env:
        return env[t]
    o, a = t.op, t.a
    if o == "int":
        return a[0]
    if o == "lin":
        return a[0] + sum(k * ev(x, env, E) for x, k in a[1])
    if o == "le":
        return int(ev(a[0], env, E) <= 0)
    if o == "eq":
        return int(ev(a[0], env, E) == 0)
    if o == "not":
        return int(not ev(a[0], env, E))
    if o in ("or", "and"):
        vs = [ev(x, env, E) for x in a]
        return int(any(vs)) if o == "or" else int(all(vs))
    if o == "discr" and isinstance(a[0], T) and a[0].op == "app" and a[0].a[0] == "cmp":
        return ordering(a[0], ev(a[0].a[2], env, E), ev(a[0].a[3], env, E), E)
    if o == "app":
        f, ty = a[0], a[1]
        if f in ("mul",):
            return ev(a[2], env, E) * ev(a[3], env, E)
        if f in ("band", "bor", "bxor", "shl", "shr", "div", "rem", "wadd", "wsub", "wmul", "min", "max", "nand"):
            x, y = ev(a[2], env, E), ev(a[3], env, E)
            lo, hi = rng(E, ty)
            if f == "band":
                return x & y
            if f == "bor":
                return x | y
            if f == "bxor":
                return x ^ y
            if f == "nand":
                return hi & ~(x & y)
            if f == "shl":
                return (x << y) & hi if lo == 0 else x << y
            if f == "shr":
                return x >> y
            if f in ("div", "rem"):
                if y == 0 or x < 0 or y < 0:
                    raise Unknown()
                return x // y if f == "div" else x % y
            if f == "min":
                return min(x, y)
            if f == "max":
                return max(x, y)
            v = x + y if f == "wadd" else x - y if f == "wsub" else x * y
            n = hi - lo + 1
            return (v - lo) % n + lo
        if f == "bnot":
            lo, hi = rng(E, ty)
            return hi - ev(a[2], env, E) if lo == 0 else ~ev(a[2], env, E)
        if f == "cast":
            lo, hi = rng(E, ty)
            v = ev(a[2], env, E)
            n = hi - lo + 1
            return (v - lo) % n + lo
    raise Unknown()


def ordering(t, x, y, E):
    """Discriminant of the result of comparing two numbers."""
    vs = E.variants(E.typeof(t)) if E is not None and E.typeof(t) is not None else None
    ds = [v[1] for v in vs] if vs and len(vs) == 3 else [-1, 0, 1]
    return ds[0] if x < y else ds[1] if x == y else ds[2]


def free(t, out=None):
    """Unknowns a term depends on, as far as it can be evaluated; raises Unknown for opaque parts."""
    out = set() if out is None else out
    o, a = t.op, t.a
    if o == "int":
        return out
    if o == "lin":
        for x, _ in a[1]:
            free(x, out)
        return out
    if o in ("le", "eq", "not", "or", "and"):
        for x in a:
            free(x, out)
        return out
    if o == "app" and a[0] in ARITH:
        for x in a[2:]:
            if isinstance(x, T):
                free(x, out)
        return out
    if o == "discr" and isinstance(a[0], T) and a[0].op == "app" and a[0].a[0] == "cmp":
        free(a[0].a[2], out)
        return free(a[0].a[3], out)
    if o in ("sym", "ev", "w", "fld", "deref", "len", "len8", "discr"):
        out.add(t)
        return out
    raise Unknown()


def conditions(st):
    """Everything the path assumes, as (term, test on its value)."""
    for l, v in st.lits.items():
        yield l, (lambda x, v=v: bool(x) == bool(v))
    for f in st.ineq:
        yield f, (lambda x: x <= 0)
    for t, (lo, hi) in st.rng.items():
        yield t, (lambda x, lo=lo, hi=hi: (lo is None or x >= lo) and (hi is None or x <= hi))
    for t, vs in st.ne.items():
        yield t, (lambda x, vs=vs: x not in vs)


def groups(st, test):
    """Joined states: one member of each group must be satisfied; True, False or None (unknown)."""
    res = True
    for g in getattr(st, "alts", ()):
        some = None if not g else False
        for x in g:
            v = test(x)
            if v is True:
                some = True
                break
            if v is None:
                some = None
        if some is False:
            return False
        if some is None:
            res = None
    return res


def holds(st, env, E):
    """Whether the assignment satisfies every condition of the path that mentions the assigned unknowns; None when one
    of those cannot be evaluated."""
    r = holds1(st, env, E)
    return groups(st, lambda x: holds(x, env, E)) if r is True else r


def holds1(st, env, E):
    keys = set(env)
    for t, test in conditions(st):
        try:
            fr = free(t)
        except Unknown:
            if any(x in keys for x in atoms(t)):
                return None
            continue
        if not fr & keys:
            continue
        if not fr <= keys:
            return None
        try:
            if not test(ev(t, env, E)):
                return False
        except Unknown:
            return None
    return True


def search(st, E, unknowns, bad, cap=20000):
    """First assignment ({term: values}) consistent with the path for which bad(env) is true."""
    names = list(unknowns)
    n = 0
    for vals in itertools.product(*[unknowns[x] for x in names]):
        n += 1
        if n > cap:
            return None
        env = dict(zip(names, vals))
        if holds(st, env, E) is not True:
            continue
        try:
            if bad(env):
                return env
        except Unknown:
            return None
    return None


def samples_for(E, x):
    lo, hi = rng(E, E.typeof(x))
    if x.op in ("discr",):
        return [0, 1]
    vs = {lo, lo + 1, lo + 2, lo + 3, hi // 2, hi - 1, hi}
    if lo < 0:
        vs |= {-1, 0, 1}
    return sorted(v for v in vs if lo <= v <= hi)


def connected(st, lit, limit=6):
    """Unknowns the literal depends on, closed under the path's evaluable conditions; None when too many or opaque."""
    try:
        un = set(free(lit))
    except Unknown:
        return None
    grow = True
    while grow:
        grow = False
        for t, _ in conditions(st):
            at = set(atoms(t)) | {t}
            if not at & un:
                continue
            try:
                fr = free(t)
            except Unknown:
                return None
            if fr & un and not fr <= un:
                un |= fr
                grow = True
        if len(un) > limit:
            return None
    return un


def settle(E, st, lit, samples=None, cap=40000):
    """(verdict, witness): True = proved on this path; False = refuted by a concrete assignment (or for every one);
    None = neither."""
    d = E.decide(st, lit)
    if d is True:
        return True, None
    un = connected(st, lit)
    if un is not None:
        dom = {}
        for x in un:
            dom[x] = (samples(x) if samples else None) or samples_for(E, x)
        env = search(st, E, dom, lambda env: not ev(lit, env, E), cap)
        if env is not None:
            return False, {show(k): v for k, v in env.items()}
    if d is False:
        return False, None
    return None, None


def goal(ctx, E, st, lit, key, text, sample=None, samples=None):
    v, wit = settle(E, st, lit, samples)
    if v is False and st.weak and wit is None:
        v = None
    if v is False and st.weak:
        v = None
    ctx.oblige(v, key, text + (" (e.g. %s)" % wit if wit else ""), sample)
    return v
