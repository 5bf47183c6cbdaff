"""Judging the symbolic result of a path: proved equal, or shown different by concrete values that take the path."""
from . import strev
from .terms import *


def same_rope(E, s, a, b):
    a, b = E.resimp(s, a), E.resimp(s, b)
    return a == b or E.decide(s, mk("same", a, b)) is True


def rope(ctx, E, s, got, want, envs, key, what, sample=None):
    """The rope on this path is exactly the wanted one; envs: candidate assignments for a counterexample."""
    if same_rope(E, s, got, want):
        ctx.oblige(True, key, None, sample or what)
        return True
    if s.weak is None:
        for env in envs:
            try:
                if strev.consistent(s, env, E) is not True:
                    continue
                g, w = strev.sev(got, env, E), strev.sev(want, env, E)
            except strev.Unknown:
                continue
            if g != w:
                ctx.violate(key, "%s: %r instead of %r (with %s)" % (what, g[:120], w[:120], show_env(env)))
                return False
    ctx.undecide(key, "%s: %s against %s" % (what, show(got)[:200], show(want)[:200]))
    return None


def number(ctx, E, s, got, want, envs, key, what, sample=None):
    if E.decide(s, EQ(E.resimp(s, got), E.resimp(s, want))) is True:
        ctx.oblige(True, key, None, sample or what)
        return True
    if s.weak is None:
        for env in envs:
            try:
                if strev.consistent(s, env, E) is not True:
                    continue
                g, w = strev.iev(got, env, E), strev.iev(want, env, E)
            except strev.Unknown:
                continue
            if g != w:
                ctx.violate(key, "%s: %s instead of %s (with %s)" % (what, g, w, show_env(env)))
                return False
    ctx.undecide(key, "%s: %s against %s" % (what, show(got)[:200], show(want)[:200]))
    return None


def excluded(ctx, E, s, lits, envs, key, what, sample=None):
    """The path cannot be taken when all of lits hold."""
    t = s.clone()
    for l in lits:
        if E.assume(t, l, True) is False or not getattr(t, "alive", True):
            ctx.oblige(True, key, None, sample or what)
            return True
    if s.weak is None:
        for env in envs:
            try:
                if strev.consistent(s, env, E) is True and all(strev.iev(l, env, E) for l in lits):
                    ctx.violate(key, "%s (with %s)" % (what, show_env(env)))
                    return False
            except strev.Unknown:
                continue
    ctx.undecide(key, what)
    return None


def show_env(env):
    return ", ".join("%s=%r" % (show(k)[:40], v[:20] if isinstance(v, bytes) else v) for k, v in list(env.items())[:9])
