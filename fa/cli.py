"""Exhaustive exploration of the command line binary over its argument language.

The arguments are words of a finite alphabet: every documented option of the subcommand with every class of value
(not a number, zero, in range, too big for an exit code), every other keyword of the parser's own table, a message
text, a non-UTF-8 word and the separator.  A word is turned into the parser crate's Argument by the keyword table found
in the program.  What the words ask for according to the documentation is kept next to the abstract state (the "ghost");
two abstract states that agree on every live variable and on the ghost have the same future, so that the exploration
of all sequences of any length ends.
"""
import re

from . import judge
from .absint import *
from .models import Models, fresh, none, norm, payload_ty, some, strv, val
from .terms import *

GHOST = mk("static", "GHOST", 0)
NUL = mk("uninit")

SWITCHES = {"help": ("-h", "--help"), "indent": ("-i", "--indent"), "stderr": ("--stderr",), "timestamp": ("-t", "--timestamp"), "yes": ("-y", "--yes")}
VALUES = {"count": ("-c", "--count"), "color": ("-c", "--prefix-color"), "exit": ("-e", "--exit"), "prefix": ("-p", "--prefix")}


def documented(cmd):
    """The options the manual lists for a subcommand."""
    if cmd == "blank":
        return ["help", "stderr"], ["count"]
    if cmd == "confirm":
        return ["help", "indent", "timestamp", "yes"], []
    return ["help", "indent", "stderr", "timestamp"], ["exit"] + (["prefix", "color"] if cmd == "print" else [])


def ghost(st):
    g = st.mem.get(GHOST)
    return dict(g.a[0]) if g is not None else {}


def set_ghost(st, g):
    st.mem[GHOST] = mk("ghost", tuple(sorted(g.items())))


class Finite(Engine):
    """Loops that read arguments are followed until no new state turns up."""
    cap = 6000

    def loop(self, fr, head, entry):
        back, x = self.iteration(fr, head, entry.clone())
        g = entry.mem.get(GHOST)
        if not any(b.mem.get(GHOST) is not g for b in back):
            return Engine.loop(self, fr, head, entry)
        exits = {}
        for t, ss in x.items():
            exits.setdefault(t, []).extend(ss)
        seen = set()
        todo = []

        def push(states):
            for b in states:
                live = fr.cfg.live[head]
                for i in fr.cfg.tracked:
                    if i not in live:
                        b.mem.pop(mk("l", fr.fid, i), None)
                self.gc(b)
                b = canon(self, b)
                k = (b.key(), bool(b.weak))
                if k not in seen:
                    seen.add(k)
                    todo.append(b)
        push(back)
        while todo:
            s = todo.pop()
            if len(seen) > self.cap or len(s.events()) > 3:
                raise Stuck("argument loop does not settle")
            back, x = self.iteration(fr, head, s.clone())
            for t, ss in x.items():
                exits.setdefault(t, []).extend(ss)
            push(back)
        self.heads = getattr(self, "heads", 0) + len(seen)
        return exits


def canon(E, s):
    """Renames the values the documentation calls for; forgets facts about everything else that was read."""
    g = ghost(s)
    ren = {}
    for k, v in g.items():
        if isinstance(v, T) and v.op != "int" and v.a[0] != "now:" + k:
            ren[v] = mk("sym", "now:" + k, E.typeof(v))
    n = mk("sym", "num:count", E.p.ty("usize"))
    if "count" in g and n not in ren and E.decide(s, EQ(n, g["count"])) is True:
        ren[n] = ren.get(g["count"], g["count"])
    t = s.clone()
    if ren:
        # two slots never share a value; later words get names of their own
        memo = {}
        for r in list(t.mem):
            if r is GHOST:
                continue
            t.mem[r] = replace(t.mem[r], ren, memo)
        set_ghost(t, {k: ren.get(v, v) if isinstance(v, T) else v for k, v in g.items()})
    t.lits, t.ineq, t.rng, t.ne = {}, (), {}, {}
    for k, v in ghost(t).items():
        if isinstance(v, T) and v.op == "sym" and k in ("count", "exit", "color"):
            E.assume(t, LE(ONE, v), True)
            if k != "count":
                E.assume(t, LE(v, INT(255)), True)
    t.n = 0
    return t


def replace(v, ren, memo):
    if isinstance(v, T):
        if v in ren:
            return ren[v]
        if v.op in ("int", "lit", "uninit", "fnv"):
            return v
        r = memo.get(v)
        if r is None:
            a = tuple(replace(x, ren, memo) if isinstance(x, (T, tuple)) else x for x in v.a)
            r = memo[v] = v if a == v.a else (rope(*a) if v.op == "rope" else mk(v.op, *a))
        return r
    if isinstance(v, tuple):
        return tuple(replace(x, ren, memo) if isinstance(x, (T, tuple)) else x for x in v)
    return v


# ---- the argument words ----------------------------------------------------------------------------------------------

class Words:
    """The language of one exploration: the first words tried, and for each subcommand which further words."""

    def __init__(self, first, rest, count=None):
        self.first, self.rest = first, rest      # rest(cmd, ghost, table) -> words
        self.count = count                       # one particular count instead of any

    def at(self, g, pos, table):
        if pos == 0:
            return [("text", b"fyi")]
        if pos == 1:
            return [g["word0"]] if "word0" in g else self.first
        if g.get("ended"):
            return [("end",)]
        return self.rest(g["cmd"], g, table)


def full(cmd, g, table):
    if cmd is None:
        return [("end",)]
    sw, vs = documented(cmd)
    out = [("end",), ("sep",), ("bytes",)]
    if cmd != "blank":
        out.append(("msg",))
        out += [("text", k) for how, k in table if how == 0]
    for s in sw:
        out += [("key", s, f) for f in SWITCHES[s]]
    for v in vs:
        for f in VALUES[v]:
            if v == "prefix":
                out.append(("val", v, f, "good"))
            else:
                out += [("val", v, f, c) for c in ("bad", "zero", "good") + (("big",) if v in ("exit", "color") else ())]
            out.append(("cut", v, f))
    return out


def step(E, st, g, word):
    """What the documentation says about one more word after the subcommand; [(state, ghost, value term or None)]"""
    how = word[0]
    cmd = g["cmd"]
    if g.get("help") or g.get("reject"):
        g = dict(g)
        return [(st, g, argval(E, g, word)[0])]
    g = dict(g)
    if how in ("end", "cut"):
        g["ended"] = 1
        return [(st, g, None)]
    if how == "sep":
        g["ended"] = 1
        g["sep"] = 1
        return [(st, g, None)]
    if how == "bytes":
        # Not text: rejected before anything is printed, or (blank) without effect.
        if cmd != "blank":
            g["reject"] = 1
        else:
            g["odd"] = 1
        return [(st, g, None)]
    if how in ("msg", "text"):
        if how == "msg":
            v = mk("sym", "word:text%d" % ("text" in g), E.p.ty("std::string::String"))
            r = whole(v)
        else:
            r = v = rlit(word[1])
        if cmd == "blank":
            g["odd"] = 1
        elif "text" in g:
            g["reject"] = 1
        else:
            g["text"] = v
        return [(st, g, r)]
    if how == "key":
        g[word[1]] = 1
        return [(st, g, None)]
    if how == "other":
        g["odd"] = 1
        return [(st, g, rlit(b"x"))]
    v, r = argval(E, g, word)[::-1]
    opt, cls = word[1], word[3]
    if opt == "prefix":
        g["prefix"] = v
        return [(st, g, r)]
    if cls in ("bad", "big"):
        g.setdefault("loose", ())
        if opt != "count":
            g["loose"] = tuple(sorted(set(g["loose"]) | {opt}))
        return [(st, g, r)]
    if opt != "count":
        g[opt] = v
        return [(st, g, r)]
    if cls == "zero":
        return [(st, g, r)]
    E.assume(st, LE(ONE, v), True)
    cur = g.get("count", ONE)
    out = []
    for big in (True, False):
        t = st.clone()
        if E.assume(t, LT(cur, v), big) is not False:
            h = dict(g)
            if big:
                h["count"] = v
            out.append((t, h, r))
    return out


def argval(E, g, word):
    """(rope of the value, number it stands for or its own term)"""
    if word[0] in ("msg", "text"):
        return (whole(mk("sym", "word:late", E.p.ty("std::string::String"))) if word[0] == "msg" else rlit(word[1])), None
    if word[0] != "val":
        return None, None
    opt, cls = word[1], word[3]
    s = mk("sym", "arg:%s:%s" % (opt, cls), E.p.ty("std::string::String"))
    if opt == "prefix":
        return whole(s), s
    if cls == "zero":
        return whole(s), ZERO
    if cls in ("bad", "big"):
        return whole(s), None
    return whole(s), numeral(E, opt)


def numeral(E, opt):
    if opt == "count":
        n = E.models.words.count
        return INT(n) if n is not None else mk("sym", "num:count", E.p.ty("usize"))
    return mk("sym", "num:%s" % opt, E.p.ty("u8"))


# ---- models ----------------------------------------------------------------------------------------------------------

class CliModels(Models):
    def __init__(self, words):
        Models.__init__(self)
        self.words = words
        self.tables = {}

    def get(self, k):
        if k is None:
            return None
        n = norm(k)
        f = EXTRA.get(n)
        if f is None:
            for rx, h in RX:
                if rx.search(n):
                    f = h
                    break
        if f is not None:
            m = self.cache.get(("own", k))
            if m is not None:
                return m
            m = self.cache[("own", k)] = self.bind(f)
            return m
        if "fyi_msg" in n or "fyi_ansi" in n:
            return None         # the workspace's own code: executed
        return Models.get(self, k)

    def bind(self, f):
        return lambda E, st, fr, info, args, dty: f(self, E, st, fr, info, args, dty)


EXTRA, RX = {}, []


def own(*names):
    def d(f):
        for n in names:
            EXTRA[n] = f
        return f
    return d


def ownrx(*rxs):
    def d(f):
        for r in rxs:
            RX.append((re.compile(r), f))
        return f
    return d


@own("argyle::args")
def a_args(M, E, st, fr, info, args, dty):
    return [(st, mk("app", "argue", dty, ONE, ()))]


@own("std::env::args_os", "std::env::args")
def a_env(M, E, st, fr, info, args, dty):
    return [(st, mk("app", "env_args", dty, ZERO))]


@ownrx(r"^<argyle::Argue as std::convert::From>::from$|^<argyle::Argue as std::convert::From<.*>>::from$|^<argyle::Argue.* as std::convert::From.*>::from$")
def a_from(M, E, st, fr, info, args, dty):
    v, skip = args[0], 0
    while v.op == "agg" and len(v.a[2]) == 2:
        n = [x for x in v.a[2] if x.op == "int"]
        i = [x for x in v.a[2] if x.op != "int"]
        if len(n) != 1 or len(i) != 1:
            break
        skip += n[0].a[0]
        v = i[0]
    if v.op == "app" and v.a[0] == "env_args":
        return [(st, mk("app", "argue", dty, INT(skip), ()))]
    return NotImplemented


@own("argyle::Argue::with_keywords")
def a_keywords(M, E, st, fr, info, args, dty):
    q = args[0]
    a = val(E, st, args[1])
    if q.op != "app" or q.a[0] != "argue" or a.op != "agg":
        return NotImplemented
    kw = dict((k, h) for h, k in q.a[3])
    for x in a.a[2]:
        x = val(E, st, x)
        if x.op != "agg" or not x.a[2]:
            return NotImplemented
        s = rope_lit(strv(E, st, x.a[2][0]))
        vs = E.tyinfo(x.a[0])["vars"]
        if s is None:
            return NotImplemented
        kw[s] = {"Command": 0, "Key": 1, "KeyWithValue": 2}[vs[x.a[1]][0]]
    return [(st, mk("app", "argue", dty, q.a[2], tuple(sorted((h, k) for k, h in kw.items()))))]


@ownrx(r"^<argyle::Argue as std::iter::Iterator>::next$")
def a_next(M, E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    q = E.read(st, loc)
    if q.op != "app" or q.a[0] != "argue":
        return NotImplemented
    out = []
    at = payload_ty(E, dty, 1)
    vs = {n[0]: i for i, n in enumerate(E.tyinfo(at)["vars"])}
    pos, table = q.a[2].a[0], q.a[3]
    kw = {k: h for h, k in table}
    M.tables.setdefault(pos, set()).add(table)

    def arg(name, *fs):
        return some(dty, mk("agg", at, vs[name], fs))

    def go(s, pos, seen):
        # Words that were skipped, then the one that is read.
        if pos < 0:
            return
        for word in M.words.at(ghost(s), pos, table):
            t = s.clone()
            g = ghost(t)
            if pos == 0:
                nxt = [(t, g, rlit(b"fyi"))]
            elif pos == 1:
                g["word0"] = word
                g["cmd"] = word[1].decode() if word[0] == "cmd" else None
                nxt = [(t, g, rlit(word[1]) if word[0] in ("text", "cmd") else None)]
                if word[0] == "end":
                    g["ended"] = 1
            else:
                nxt = step(E, t, g, word)
            for t, g, r in nxt:
                set_ghost(t, g)
                yield_word(t, pos, word, r)

    def yield_word(t, pos, word, r):
        if pos < q.a[2].a[0]:
            go(t, pos + 1, True)
            return
        E.write(t, E.deref_loc(t, args[0]), mk("app", "argue", q.a[1], INT(min(pos + 1, 2)), q.a[3]))
        how = word[0]
        if how in ("end", "cut"):
            # an option cut off from its value ends the stream, unless the parser takes no value for it
            if how == "cut" and kw.get(word[2].encode()) != 2:
                how, word = "key", ("key", word[1], word[2])
            else:
                out.append((t, none(dty)))
                return
        if how == "sep":
            out.append((t, arg("End", fresh(E, E.field_types(at, vs["End"])[0], "rest"))))
        elif how == "bytes":
            out.append((t, arg("InvalidUtf8", fresh(E, E.field_types(at, vs["InvalidUtf8"])[0], "bytes"))))
        elif how in ("key", "val", "other"):
            k = word[2].encode()
            h = kw.get(k)
            if h is None:
                out.append((t, arg("Other", rlit(k))))
            elif h == 0:
                out.append((t, arg("Command", E.sr(rlit(k)))))
            elif h == 1:
                out.append((t, arg("Key", E.sr(rlit(k)))))
            else:
                out.append((t, arg("KeyWithValue", E.sr(rlit(k)), r if r is not None else rlit(b"x"))))
        else:
            k = rope_lit(r)
            h = kw.get(k) if k is not None else None
            if h == 0:
                out.append((t, arg("Command", E.sr(r))))
            elif h == 1:
                out.append((t, arg("Key", E.sr(r))))
            else:
                out.append((t, arg("Other", r)))

    start = q.a[2].a[0]
    g = ghost(st)
    if start >= 2 and "word0" not in g:
        go(st, 1, True)
    elif start > 2:
        go(st, 2, True)
    else:
        go(st, start, False)
    return out


def number_of(r):
    """The argument whose digits this is."""
    found = [x for x in atoms(r) if x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith("arg:")]
    if len(set(found)) != 1:
        return None
    _, opt, cls = found[0].a[0].split(":")
    return opt, cls


@ownrx(r"dactyl::traits::BytesToUnsigned>::btou$", r"dactyl::traits::BytesToSigned>::btoi$", r"^std::str::<impl str>::parse$", r"FromStr>::from_str$")
def a_number(M, E, st, fr, info, args, dty):
    try:
        n = number_of(strv(E, st, args[0]))
    except Exception:
        n = None
    if n is None:
        return NotImplemented
    opt, cls = n
    isres = "Result<" in E.tyinfo(dty)["s"]
    ty = payload_ty(E, dty, 0 if isres else 1)
    ti = E.tyinfo(ty)
    nz = "NonZero" in ti["s"]
    rng = E.int_range(ty)
    if nz:
        m = re.search(r"NonZero<(\w+)>|NonZero(U|I)(\d+|size)", ti["s"])
        base = m.group(1) if m and m.group(1) else None
        rng = E.int_range(E.p.ty(base)) if base else (1, USIZE_MAX)
    if rng is None:
        return NotImplemented

    def good(s, v):
        return (s, mk("agg", dty, 0, (v,))) if isres else (s, some(dty, v))

    def bad(s):
        if isres:
            return (s, mk("agg", dty, 1, (fresh(E, payload_ty(E, dty, 1), "parse"),)))
        return (s, none(dty))
    if cls == "bad":
        return [bad(st)]
    if cls == "zero":
        return [bad(st) if nz else good(st, ZERO)]
    if cls == "big":
        v = mk("sym", "big:%s" % opt, E.p.ty("u64"))
        if rng[1] <= 255:
            return [bad(st)]
        E.assume(st, LE(INT(256), v), True)
        E.assume(st, LE(v, INT(rng[1])), True)
        return [good(st, v)]
    v = numeral(E, opt)
    out = []
    E.assume(st, LE(ONE, v), True)
    b = st.clone()
    if E.assume(st, LE(v, INT(rng[1])), True) is not False:
        out.append(good(st, v))
    if E.assume(b, LE(v, INT(rng[1])), False) is not False:
        out.append(bad(b))
    return out


@ownrx(r"^std::str::<impl str>::trim(_\w+)?$", r"^std::(str|slice::ascii|slice)::<impl (str|\[u8\])>::trim_ascii(_\w+)?$")
def a_trim(M, E, st, fr, info, args, dty):
    r = strv(E, st, args[0])
    if number_of(r) is not None:
        return [(st, E.sr(r))]
    m = Models.get(M, info.get("ipath") or info["path"])
    return m(E, st, fr, info, args, dty) if m else NotImplemented


# -- messages: what a message is made of --
# fields: prefix, text, timestamp, indent, newline

def msg(dty, prefix, text, ts=ZERO, indent=ZERO, nl=ZERO):
    return mk("app", "message", dty, (prefix, text, ts, indent, nl))


def is_msg(v):
    return v.op == "app" and v.a[0] == "message"


@ownrx(r"fyi_msg::(msg::)?Msg::(new|plain)$", r"fyi_msg::msg::kind::<impl fyi_msg::(msg::)?Msg>::\w+$")
def a_msg_new(M, E, st, fr, info, args, dty):
    n = info["name"]
    if E.tyinfo(dty)["s"].split("::")[-1] != "Msg":
        return NotImplemented
    t = E.tyinfo
    if n == "new":
        p = args[0]
        a = mk("app", "prefix", None, p)
        if p.op == "agg" and len(p.a[2]) == 2:
            c = p.a[2][1]
            a = mk("app", "prefix", None, strv(E, st, p.a[2][0]), c)
        elif p.op == "agg" or p.op == "ref":
            k = val(E, st, p)
            if k.op == "agg" and not k.a[2] and t(k.a[0]).get("vars"):
                a = mk("app", "kind", None, t(k.a[0])["vars"][k.a[1]][0])
        return [(st, msg(dty, a, strv(E, st, args[1])))]
    text = strv(E, st, args[-1])
    return [(st, msg(dty, mk("app", "kind", None, "None" if n == "plain" else n.capitalize()), text, nl=ZERO if n in ("plain",) else ONE))]


@ownrx(r"fyi_msg::(msg::)?Msg::(with|set)_(timestamp|indent|newline)$")
def a_msg_set(M, E, st, fr, info, args, dty):
    how, f = info["name"].split("_")
    i = {"timestamp": 2, "indent": 3, "newline": 4}[f]
    loc = E.deref_loc(st, args[0]) if how == "set" else None
    v = E.read(st, loc) if how == "set" else args[0]
    if not is_msg(v):
        return NotImplemented
    fs = list(v.a[2])
    fs[i] = args[1]
    w = mk("app", "message", v.a[1], tuple(fs))
    if how == "set":
        E.write(st, loc, w)
        return [(st, E.unit())]
    return [(st, w)]


@ownrx(r"fyi_msg::(msg::)?Msg::(print|eprint)$")
def a_msg_print(M, E, st, fr, info, args, dty):
    v = val(E, st, args[0])
    E.event(st, "message", ("stderr" if info["name"] == "eprint" else "stdout", v), fr)
    return [(st, E.unit())]


@ownrx(r"fyi_msg::(msg::)?Msg::e?prompt(_with_default)?$")
def a_msg_prompt(M, E, st, fr, info, args, dty):
    v = val(E, st, args[0])
    d = args[1] if len(args) > 1 else ZERO
    out = []
    for a in (ONE, ZERO):
        t = st.clone()
        E.event(t, "prompt", (v, d, a, "stderr" if info["name"].startswith("e") else "stdout"), fr)
        out.append((t, mk("int", a.a[0])))
    return out


@ownrx(r"fyi_msg::(ansi::)?AnsiColor::from_u8$")
def a_color(M, E, st, fr, info, args, dty):
    return [(st, mk("app", "color", dty, args[0]))]


@own("std::string::ToString::to_string", "<T as std::string::ToString>::to_string", "<T as std::string::SpecToString>::spec_to_string")
def a_to_string(M, E, st, fr, info, args, dty):
    v = val(E, st, args[0])
    if v.op in ("rope", "sr"):
        return [(st, strv(E, st, v))]
    return [(st, whole(mk("app", "shown", E.p.ty("std::string::String"), v)))]


# -- exit codes --

def exit_value(v):
    while v.op == "agg" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


@ownrx(r"<std::process::ExitCode as std::convert::From(<u8>)?>::from$")
def a_exit_from(M, E, st, fr, info, args, dty):
    def wrap(ty):
        t = E.tyinfo(ty)
        if t is None or t.get("k") != "adt":
            return args[0]
        f = E.field_types(ty, 0)
        return mk("agg", ty, 0, (wrap(f[0]),)) if f else args[0]
    return [(st, wrap(dty))]


@own("std::convert::From::from", "std::convert::Into::into")
def a_from_generic(M, E, st, fr, info, args, dty):
    t = E.tyinfo(dty)
    if t is not None and t.get("k") == "adt" and t["path"].endswith("process::ExitCode"):
        return a_exit_from(M, E, st, fr, info, args, dty)
    m = Models.get(M, info["path"])
    return m(E, st, fr, info, args, dty) if m else NotImplemented


@own("<std::process::ExitCode as std::cmp::PartialEq>::eq", "<std::process::ExitCode as std::cmp::PartialEq>::ne")
def a_exit_eq(M, E, st, fr, info, args, dty):
    l = EQ(exit_value(val(E, st, args[0])), exit_value(val(E, st, args[1])))
    return [(st, l if info["name"] == "eq" else NOT(l))]


@own("std::process::ExitCode::exit_process", "std::process::exit", "std::process::abort")
def a_exit(M, E, st, fr, info, args, dty):
    E.event(st, "exit", (exit_value(val(E, st, args[0])) if args else INT(134),), fr)
    E.diverged = getattr(E, "diverged", []) + [st]
    return []


KEEP = {"message", "prompt", "write", "write_some", "exit", "unknown"}


class Cli:
    """The outcomes of the whole program over one language of arguments."""

    def __init__(self, words, entry="main"):
        self.P = Program.load("bin", "fyi")
        b = [b for b in self.P.list if b["local"] and b["identity"] and b["path"] == entry]
        self.M = CliModels(words)
        E = self.E = Finite(self.P, self.M, maxstates=200000)
        E.keep = lambda kind, args: kind in KEEP
        self.stuck = None
        self.outs = []          # (how, state, exit value or None)
        try:
            r = E.run(b[0]["key"], [])
            self.outs += [("return", s, exit_value(v)) for s, v in r]
            self.outs += [("exit", s, s.events()[-1].args[0]) for s in getattr(E, "diverged", [])]
        except Stuck as e:
            self.stuck = str(e)

    def ended(self):
        for how, s, v in self.outs:
            g = ghost(s)
            yield g, s, [e for e in s.events() if e.kind != "exit"], v


# ---- judging ---------------------------------------------------------------------------------------------------------

def say(g, word=""):
    """The command line, up to order."""
    w = g.get("word0", ("?", b"?"))
    out = ["fyi", w[1].decode() if isinstance(w[1], bytes) else (w[2] if len(w) > 2 else "")] if len(w) > 1 else ["fyi"]
    for k in ("help", "indent", "stderr", "timestamp", "yes"):
        if g.get(k):
            out.append("--" + k)
    for k in ("prefix", "color", "exit", "count"):
        if k in g:
            out.append("--%s=%s" % ({"color": "prefix-color"}.get(k, k), show(g[k]).lstrip("%") if g[k] is not None else ""))
    for k in g.get("loose", ()):
        out.append("(unusable %s value)" % k)
    if "text" in g:
        out.append("MESSAGE")
    if g.get("sep"):
        out.append("-- ...")
    if g.get("reject"):
        out.append("(then something that is not accepted)")
    return " ".join(out)


def simple(t):
    return t.op == "int" or all(x.op == "sym" for x in atoms(t))


def same_int(E, s, a, b):
    """True, False (a value tells them apart) or None."""
    a, b = E.resimp(s, a), E.resimp(s, b)
    d = E.decide(s, EQ(a, b))
    if d is not None:
        return d
    return False if simple(a) and simple(b) else None


def truth(E, s, v):
    """A condition as 0 or 1 when it is known."""
    if v.op == "int":
        return v
    d = E.decide(s, v) if v.op in ("eq", "le", "not", "or", "same") or E.is_bool(E.typeof(v)) else None
    return v if d is None else ONE if d else ZERO


def outputs(evs):
    out = {"stdout": [], "stderr": []}
    for e in evs:
        if e.kind in ("write", "write_some", "message"):
            out[e.args[0]].append(e)
        elif e.kind == "prompt":
            out[e.args[3]].append(e)
    return out


def kind_of_outcome(g):
    if g.get("help"):
        return "help"
    if g.get("reject"):
        return "usage"
    if g["cmd"] == "blank":
        return "blank"
    if "text" not in g:
        return "open" if g.get("sep") else "usage"
    return "confirm" if g["cmd"] == "confirm" else "print"


def panics(ctx, c):
    """No command line makes the program panic before it has printed anything."""
    n = 0
    for s, kind, detail, where, certain in c.E.panics:
        if s.events() or not certain:
            continue        # e.g. a write that failed
        n += 1
        what = say(ghost(s))
        text = "%s:%s: %s panics" % (where[0], where[1], what)
        if s.weak:
            ctx.undecide("panic|%s|%s" % (where[0], kind), text)
        else:
            ctx.violate("panic|%s|%s" % (where[0], kind), text)
    if not n:
        ctx.ok("no panic before the first output in %d steps" % c.E.steps)
