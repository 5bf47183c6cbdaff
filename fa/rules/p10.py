"""Every path of every prompt method is enumerated (one generic iteration of the asking loop from its general state).
What an answer leads to is read off the comparisons on the path: they must compare the trimmed, lower-cased line alone
(nothing left over from earlier answers); each accepted word must return its value, and a path that asks again must have
ruled out all five accepted answers and have printed an error.  Questions and errors go to the variant's stream only."""
import itertools

from .. import par, strev
from ..prog import *

WORDS = ["", "y", "yes", "n", "no"]
OTHER = ["maybe", "yy", "yn", "ny", "nope", "ye", "yess", "noo", "y y", "n/y", "1", "0", "true", "\u00ff", "o", "es", "x" * 20, "yes please", "non", "y\u0301"]
WRAPS = [("", ""), ("", "\n"), ("", "\r\n"), (" ", "\n"), ("\t  ", " \t\r\n"), ("\u3000", "\u00a0\n"), ("\n", "\n")]


def cases(w):
    yield w
    yield w.upper()
    if len(w) > 1:
        yield w.title()
        yield w[:-1] + w[-1].upper()


ANSWERS = [(l + c + r, w if w in WORDS else None) for w in WORDS + OTHER for c in cases(w) for l, r in WRAPS]


def strip(b):
    out, i = b"", 0
    while i < len(b):
        if b[i] == 27 and i + 1 < len(b) and b[i + 1] == 91:
            i += 2
            while i < len(b) and not 0x40 <= b[i] <= 0x7e:
                i += 1
            i += 1
        else:
            out += b[i:i + 1]
            i += 1
    return out


def norm_of(t, line):
    """The set of steps when the rope is exactly the (trimmed / lower-cased) line, else None."""
    steps = set()
    while True:
        if t is whole(line):
            return steps
        if t.op == "rope" and len(t.a) == 1 and t.a[0].op == "sub" and t is whole(t.a[0].a[0]):
            x = t.a[0].a[0]
            if x.op == "app" and x.a[0] in ("trim", "to_lowercase", "to_ascii_lowercase"):
                steps.add("trim" if x.a[0] == "trim" else "lower")
                t = x.a[2]
                continue
            if x.op == "rope":
                t = x
                continue
        return None


def compared(st, line):
    """{word: bool} facts "normalised line == word" known on the path."""
    out = {}
    for l, v in st.lits.items():
        if l.op == "same":
            for a, b in ((l.a[0], l.a[1]), (l.a[1], l.a[0])):
                c = rope_lit(b)
                if c is not None and norm_of(a, line) == {"trim", "lower"}:
                    try:
                        out[c.decode()] = bool(v)
                    except UnicodeDecodeError:
                        pass
        elif l.op == "eq" and l.a[0].op in ("len", "lin"):
            # emptiness: length of the normalised line is zero
            ks, c = lin_parts(l.a[0])
            if c == 0 and len(ks) == 1 and ks[0][0].op == "len":
                x = ks[0][0].a[0]
                n = norm_of(whole(x), line)
                if n is not None and "trim" in n:
                    out[""] = bool(v)
    return out


def outcome(E, st, v, default):
    """True / False / "default" when the returned value is decided."""
    got = set()
    for want in (True, False):
        if (v.op == "int" and bool(v.a[0]) == want) or E.decide(st, E.tobool(st, v) if hasattr(E, "tobool") else v) is want:
            return want
    if default is not None and v is default:
        return "default"
    return None


def check(ctx, cfg, p, b):
    name = b["path"].split("::")[-1]
    stream = "stderr" if name.startswith("e") else "stdout"
    args = p.symargs(b)
    default = args[1] if len(args) > 1 else INT(0)
    E = None
    for u in (2, 0):
        try:
            r, E = p.run(b, args, trace_if=lambda l: True, unroll=(lambda fr: 2) if u else 0)
        except Exception as e:      # too many states when unrolled
            r = None
        if r is None:
            continue
        scan(ctx, E, r, name, stream, default, definite=bool(u))
    if r is None:
        ctx.undecide("stuck|" + name, "could not analyse %s (%s)" % (name, p.stuck.get(b["path"])))
        return
    for q in E.panics:
        ctx.undecide("panic|" + name, "%s may panic: %s" % (name, str(q)[:160]))
    ctx.count("prompts")


def scan(ctx, E, r, name, stream, default, definite):
    n = 0
    done = set()
    def one(st, evs, v):
        """An iteration (the events since the loop head): v None when it asks again."""
        bad = None if st.weak else False
        reads = [(i, e) for i, e in enumerate(evs) if e.kind == "read_line"]
        for e in evs:
            if e.kind in ("write", "write_some", "flush") and e.args[0] != stream:
                ctx.oblige(bad, "stream|" + name, "%s: %s writes to %s" % (loc(e), name, e.args[0]))
        if not reads:
            if v is not None:
                ctx.oblige(bad, "unread|" + name, "%s returns without reading an answer" % name)
            return
        dv = default
        if default.op != "int":
            d = E.decide(st, E.tobool(st, default))
            dv = INT(int(d)) if d is not None else default
        i, rd = reads[-1]
        asked = [e for e in evs[:i] if e.kind == "write"]
        prev = reads[-2][0] if len(reads) > 1 else -1
        # the question
        q = [e for e in evs[prev + 1:i] if e.kind == "write"]
        if not any(e.kind == "ioerr" for e in evs[prev + 1:i]):
            ctx.oblige(True if q else bad, "question|" + name, "%s: reads an answer without asking the question first" % loc(rd), "%s asks on %s" % (name, stream))
        for e in q[-1:]:
            lits = b"".join(x.a[0] for x in sorted(atoms(e.args[1]), key=lambda t: t.id) if x.op == "lit")
            s = strip(lits)
            marks = [s[k:k + 5] for k in range(len(s)) if s[k:k + 5].lower() == b"[y/n]"]
            if dv.op == "int" and len(marks) == 1:
                want = b"[Y/n]" if dv.a[0] else b"[y/N]"
                ctx.oblige(True if marks[0] == want else bad, "hint|" + name, "%s: the question shows %s while the default answer is %s" % (loc(e), marks[0].decode(), "yes" if dv.a[0] else "no"),
                           "%s: default %s shown as %s" % (name, bool(dv.a[0]), want.decode()))
        # the answer
        cur, line = rd.args
        if cur is not EMPTY:
            old = [x.args[1] for _, x in reads[:-1]]
            left = any(o in atoms(cur) for o in old)
            ctx.oblige(False if left and not st.weak else None, "leftover|" + name, "%s: the answer is appended to what was typed before" % loc(rd))
            if not left and not definite:
                return
        elif len(reads) > 1 or not definite:
            ctx.oblige(True, "leftover|" + name, "", "%s: each answer is read into an empty buffer" % name)
        failed = any(e.kind == "ioerr" and e.args[0] == "stdin" for e in evs[i:])
        cmpd = compared(st, line)
        pos = [w for w, t in cmpd.items() if t]
        ctx.count("answer paths")
        if v is None:
            if failed:
                return
            err = [e for e in evs[i:] if e.kind == "write" and e.args[1] is not EMPTY and (not q or e.args[1] is not q[-1].args[1])]
            ctx.oblige(True if err else bad, "silent|" + name, "%s: an answer is refused without printing an error" % loc(rd), None)
            missing = [w for w in WORDS if cmpd.get(w) is not False]
            good = not missing
            wrong = [(a, w) for a, w in ANSWERS if w is not None and reaches(st, line, a)] if missing else []
            ctx.oblige(True if good else (bad if wrong else None), "refused|" + name, "%s: the answer %r is refused" % (loc(rd), wrong[0][0] if wrong else missing),
                       "%s: asks again only when the answer is none of %s" % (name, WORDS))
            return
        if failed:
            ctx.oblige(bad, "failed-read|" + name, "%s: returns an answer although reading failed" % loc(rd))
            return
        got = outcome(E, st, v, default)
        exp = {"": dv, "y": INT(1), "yes": INT(1), "n": INT(0), "no": INT(0)}
        def right(w):
            x = exp[w]
            if got == "default":
                return x is default
            return x.op == "int" and got is bool(x.a[0])
        if len(pos) == 1 and pos[0] in exp and got is not None:
            ctx.oblige(True if right(pos[0]) else bad, "wrong|%s|%s" % (name, pos[0]), "%s: the answer %r returns %s" % (loc(rd), pos[0], got),
                       "%s: %r returns %s" % (name, pos[0], "the default" if pos[0] == "" else got))
            return
        wrong = [(a, w) for a, w in ANSWERS if (w is None or (got is not None and not right(w))) and reaches(st, line, a)]
        ctx.oblige(bad if wrong else None, "accepted|" + name, "%s: the answer %r returns %s" % (loc(rd), wrong[0][0] if wrong else "?", got))
    for s, v in r:
        evs = s.events()
        for k, e in enumerate(evs):
            if e.kind == "loop":
                rec = e.args[0]
                if rec in done:
                    continue
                done.add(rec)
                for h, bs, sub in rec.backs:
                    one(bs, sub, None)
                for _h, bs, sub in rec.first:
                    one(bs, sub, None)
        last = max([k for k, e in enumerate(evs) if e.kind == "loop"], default=-1)
        one(s, evs[last + 1:], v)
    return n


def reaches(st, line, a):
    return strev.consistent(st, {line: a.encode()}) is True


def run_config(ctx, cfg):
    p = Prog(cfg)
    for b in p.P.list:
        if b["impl_self"] == "msg::Msg" and (not b["public"] or "prompt" in b["path"].split("::")[-1]):
            p.over.pop(b["key"], None)
    for b in p.P.list:
        if b["local"] and b["identity"] and b["impl_self"] == "msg::Msg" and b["public"] and b["path"].split("::")[-1] in (
                "prompt", "prompt_with_default", "eprompt", "eprompt_with_default"):
            check(ctx, cfg, p, b)


def run(ctx):
    par.each(ctx, run_config, ["default", "all"])
    ctx.floor("prompts", 8)
    ctx.floor("answer paths", 40)
