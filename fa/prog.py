"""Shared set-up for the progress rules: which bodies are entry points, how they are run, and helpers over traces.

Everything is found from the types the library publishes (`Progless`), from Drop impls, from what is handed to
thread::spawn and to the signal registry; private helper functions are simply executed where they are called."""
import re

from .absint import *
from .models import Models, some, none, fresh, whole, ok, err
from .terms import *

OPAQUE_KEEP = {"print", "eprint", "as_str", "as_bytes", "len", "is_empty", "deref", "as_ref", "borrow", "write_all", "fmt", "eq", "cmp", "partial_cmp",
               "hash"}


def opaque_msg(name):
    def m(E, st, fr, info, args, dty):
        t = E.tyinfo(dty)
        mty = E.p.ty("msg::Msg")
        if args and args[0].op in ("ref", "sym") and E.typeof(args[0]) is not None or (args and args[0].op == "ref"):
            ptr = args[0]
            if ptr.op == "ref" or (E.tyinfo(E.typeof(ptr)) or {}).get("k") == "ref":
                try:
                    loc = E.deref_loc(st, ptr)
                    cur = E.read(st, loc)
                except Exception:
                    cur = None
                if cur is not None and E.typeof(cur) == mty:
                    mut = atys_mut(E, info)
                    if mut:
                        E.write(st, loc, mk("app", "msg:" + name, mty, cur, *[simple(E, st, a) for a in args[1:]]))
                        return [(st, E.unit())] if t and t.get("k") == "tuple" else [(st, args[0] if t and t.get("k") == "ref" else E.fresh(dty, name))]
        return [(st, mk("app", "msg:" + name, dty, *[simple(E, st, a) for a in args]))]
    return m


def atys_mut(E, info):
    b = E.p.bodies.get(info.get("inst"))
    if b is None:
        return True
    t = E.tyinfo(b["locals"][1])
    return bool(t and t.get("k") == "ref" and t.get("m"))


def simple(E, st, a):
    """Argument as a stable term."""
    if a.op == "ref":
        try:
            v = E.read(st, E.deref_loc(st, a))
            return v
        except Exception:
            return a
    return a


def c_length_width(E, st, fr, info, args, dty):
    r = E.fresh(dty, "keep")
    n = E.length(st, args[0]) if hasattr(E, "length") else None
    if n is not None:
        E.assume(st, LE(r, n), True)
    return [(st, r)]


def c_noansi_next(E, st, fr, info, args, dty):
    """Some(any char) or None; the iterator advances in an unspecified way."""
    loc = E.deref_loc(st, args[0])
    b = st.clone()
    c = E.fresh(E.tyinfo(dty)["vars"][1][2][0][1] if False else E.p.ty("char"), "noansi")
    E.write(st, loc, E.fresh(E.typeof(E.read(st, loc)), "noansi"))
    E.write(b, E.deref_loc(b, args[0]), E.fresh(E.typeof(E.read(b, E.deref_loc(b, args[0]))), "noansi"))
    return [(st, some(dty, c)), (b, none(dty))]


DROP = {"time", "ioerr", "fmt", "replaced", "nice", "advance", "term_size", "hash", "may_panic", "atry", "write_err"}
M32 = (1 << 32) - 1


def about_state(l):
    """Conditions on shared state: atomic values and mutex contents."""
    for a in atoms(l):
        if a.op == "ev" and isinstance(a.a[2], str) and (a.a[2].startswith("atomic:") or a.a[2] == "locked"):
            return True
    return False


class Slim:
    """Keeps what ordering rules look at, so that paths that differ only in data coincide.  Conditions on an atomic
    become test(key, mask, value, truth, age): `(loaded & mask) == value` was found true/false, age 0 = latest load."""

    def __init__(self, bits=None, contents=False, drop=()):
        self.bits = bits          # keep tests of these flag bits only (None: all)
        self.contents = contents
        self.drop = DROP | set(drop)

    def __call__(self, E, st, kind, args):
        if kind in self.drop:
            return None
        if kind == "if":
            return self.test(E, st, args[0], args[1])
        if kind == "aload":
            return args[:1]
        if kind == "astore":
            return (args[0], args[1].a[0] if args[1].op == "int" else None)
        if kind == "armw":
            x = args[4]
            if args[3] in ("update", "cas"):
                x = args[2]
            return (args[0], args[3], x.a[0] if isinstance(x, T) and x.op == "int" else None)
        if kind == "unlock":
            written = args[1] is not None and args[1].op not in ("ev",)
            return (args[0], args[2], written)
        if kind in ("write", "write_some"):
            return (args[0], self.content(E, args[1]), args[2])
        if kind == "writev":
            return (args[0], None, args[2])
        if kind == "set_insert":
            return args[:1]
        if kind == "set_remove":
            return (args[0], args[2])
        if kind == "exit":
            return (args[0], args[1].a[0] if len(args) > 1 and args[1].op == "int" else None)
        return args

    def content(self, E, r):
        if r.op == "rope":
            b = rope_lit(r)
            if b is not None:
                return b
            for sg in r.a:
                if sg.op == "sub" and is_msg_text(E, sg.a[0]):
                    return "msg:" + (show(r) if self.contents else "")
        return "data"

    def test(self, E, st, l, val):
        while l.op == "not":
            l, val = l.a[0], not val
        evs = [a for a in atoms(l) if a.op == "ev" and isinstance(a.a[2], str) and (a.a[2].startswith("atomic:") or a.a[2] == "locked")]
        if not evs:
            return None
        ev = evs[0]
        if (E.int_range(E.typeof(ev)) or (0, 1 << 9))[1] > 255 and not E.is_bool(E.typeof(ev)):
            return None
        mask, value = None, None
        if l is ev:
            mask, value = 1, 1
        elif l.op == "eq":
            items, c = lin_parts(l.a[0])
            if len(items) == 1 and items[0][1] in (1, -1):
                x, q = items[0]
                v = -c * q
                if x is ev:
                    mask, value = "all", v
                elif x.op == "app" and x.a[0] == "band" and len(x.a) == 4:
                    p = [y for y in x.a[2:] if y.op == "int"]
                    o = [y for y in x.a[2:] if y is ev]
                    if p and o:
                        mask, value = p[0].a[0], v
        if mask is None or (self.bits is not None and mask not in (1, "all") and not mask & self.bits):
            return None
        if ev.a[2] == "locked":
            key = None
            for r, x in st.mem.items():
                if r.op == "mx" and x is ev:
                    key = r.a[1]
            return (("kind", "test"), key or "locked", mask, value, val, 0)
        key = ev.a[2][7:]
        age, t = 0, st.trace
        while t is not None:
            e = t.a[1]
            if e.kind in ("aload", "armw") and e.args[0] == key:
                if ev in E.rawev.get(t.id, ()):
                    break
                age += 1
            t = t.a[0]
        return (("kind", "test"), key, mask, value, val, age)


def is_msg_text(E, base):
    b = base
    for _ in range(3):
        t = E.tyinfo(E.typeof(b)) if isinstance(b, T) else None
        if t is not None and t.get("path") == "msg::Msg":
            return True
        if isinstance(b, T) and b.op in ("fld", "deref"):
            b = b.a[0]
        else:
            break
    return False


class Prog:
    """One feature set of fyi_msg."""

    def __init__(self, config="all", mergeat=8, keep=None, maxstates=20000, slim=None):
        self.config = config
        self.slim = slim
        self.P = Program.load(config)
        self.mergeat, self.keep, self.maxstates = mergeat, keep, maxstates
        self.over = {}
        for b in self.P.list:
            if not b["local"] or b.get("closure_of"):
                continue
            last = b["path"].split("::")[-1]
            if b["impl_self"] == "msg::Msg" and last not in OPAQUE_KEEP and "print" not in last:
                self.over[b["key"]] = opaque_msg(last)
            elif b["path"].endswith("::length_width") and b["public"]:
                self.over[b["key"]] = c_length_width
            elif "NoAnsi" in (b["impl_self"] or "") and last == "next":
                self.over[b["key"]] = c_noansi_next
        self.fixed = None
        self.track = False
        self.ideal = False
        self.results = {}
        self.stuck = {}
        self.visited = set()
        self.unmodelled = {}
        self.panics = []
        self.unwound = []

    # -- entry points --
    def entries(self):
        out = []
        for b in self.P.list:
            if not b["identity"] or not b["local"] or b.get("closure_of"):
                continue
            s = b["impl_self"] or ""
            last = b["path"].split("::")[-1]
            if last == "fmt" or last in ("eq", "cmp", "partial_cmp", "hash", "clone"):
                continue
            if s == "progress::Progless" and b["public"]:
                out.append(b)
            elif b["impl_trait"] and "as std::ops::Drop>" in b["impl_trait"] and s.startswith("progress::"):
                out.append(b)
        return out

    def engine(self, **kw):
        E = Engine(self.P, Models(), overrides=self.over, maxstates=self.maxstates, mergeat=self.mergeat, **kw)
        E.keep = self.keep
        if self.slim:
            E.slim = self.slim
            if "unroll" not in kw:
                E.unroll = self.unroll
            E.trace_if = about_state
            E.canon_loops = True
            E.summaries = {}
        return E

    def symargs(self, body):
        return [mk("sym", "a%d" % i, body["locals"][i + 1]) for i in range(body["argc"])]

    def run(self, body, args=None, **kw):
        """[(state, value)] for one body, or None when the interpreter gave up."""
        # Order rules look at precise first iterations too: as many as can be afforded.
        tries = [lambda fr: 1 if fr.depth == 0 else 2, 1, 0] if self.slim and "unroll" not in kw else [None]
        for n, u in enumerate(tries):
            self.unroll = u or 0
            E = self.engine(**kw)
            E.fixed = self.fixed
            E.track = self.track
            E.ideal = self.ideal
            try:
                r = E.run(body["key"], args if args is not None else self.symargs(body))
                break
            except Stuck as e:
                if n == len(tries) - 1:
                    self.stuck[body["path"]] = str(e)
                    return None, E
        self.visited |= E.visited
        for k, n in E.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + n
        for k, e in getattr(E, "stucks", {}).items():
            self.stuck[k] = e
        return r, E

    def finals(self, r, E):
        """Every way out: returns, process exits, panics."""
        out = [("return", s, v) for s, v in r]
        out += [("unwind", s, None) for s in getattr(E, "unwinds", []) or []]
        out += [("exit", s, None) for s in getattr(E, "diverged", [])]
        out += [("panic", s, None) for s in getattr(E, "panicked", [])]
        return out

    def run_all(self):
        """{name: (finals, engine)} of every entry point plus the closures they hand to threads and signals."""
        out = {}
        todo = [(b["path"], b, None) for b in self.entries()]
        seen = set()
        i = 0
        while i < len(todo):
            name, b, args = todo[i]
            i += 1
            r, E = self.run(b, args)
            if r is None:
                out[name] = (None, E)
                continue
            out[name] = (self.finals(r, E), E)
            for _, s, _v in out[name][0]:
                for e in walk(s.events()):
                    clo = None
                    if e.kind == "spawn":
                        clo, kind = e.args[0], "thread"
                    elif e.kind == "sig_register":
                        clo, kind = e.args[1], "signal %s" % show(e.args[0])
                    elif e.kind == "once":
                        clo, kind = e.args[1], "init"
                    if clo is None:
                        continue
                    cb = self.closure_body(E, clo)
                    if cb is None or (cb["key"], kind) in seen:
                        continue
                    seen.add((cb["key"], kind))
                    todo.append(("%s:%s" % (kind, cb["path"]), cb, None))
        self.results = out
        return out

    def closure_body(self, E, v):
        if v.op == "fnv":
            info = E.fns[v.a[0]]
            return self.P.bodies.get(info.get("inst"))
        t = E.tyinfo(E.typeof(v))
        if t is None:
            return None
        if t.get("k") == "fndef":
            return self.P.bodies.get(t["fn"].get("inst"))
        if t.get("k") == "closure":
            return self.P.bodies.get(t.get("inst"))
        return None


def walk(evs):
    """Events, descending into loop records."""
    for e in evs:
        yield e
        if e.kind == "loop":
            for sub, _weak in bodies(e):
                for x in walk(sub):
                    yield x


def bodies(e):
    """The iterations of a loop event that come back to its head: [(events, imprecise?)]; each event sequence once."""
    rec = e.args[0]
    if getattr(rec, "subs", None) is None:
        out = {}
        for _h, s, sub in rec.first:
            k = tuple(sub)
            out[k] = out.get(k, True) and bool(s.weak)
        for _h, s, sub in rec.backs:
            out.setdefault(tuple(sub), True)
        rec.subs = list(out.items())
    return rec.subs


def loc(e):
    return "%s:%s" % e.loc


def path_of(evs, n=12):
    return " -> ".join("%s(%s)@%s" % (e.kind, e.args[0] if e.args and isinstance(e.args[0], str) else "", e.loc[1]) for e in evs[-n:])


def role_args(P, body):
    return [mk("sym", "a%d" % i, body["locals"][i + 1]) for i in range(body["argc"])]


def roles(config="all"):
    """Which atomic is the run state (and its running bit) and which is the counter, read off the published
    increment_n: the counter is what it updates, the running bit is the single bit it tests before that."""
    p = Prog(config)
    b = [x for x in p.P.list if x["path"] == "progress::Progless::increment_n"]
    if not b:
        return None
    r, E = p.run(b[0], trace_if=lambda l: True)
    if r is None:
        return None
    flags = bit = done = None
    for s, v in r:
        for e in s.events():
            if e.kind == "if" and flags is None:
                l, val = e.args
                while l.op == "not":
                    l, val = l.a[0], not val
                for a in atoms(l):
                    if a.op == "ev" and isinstance(a.a[2], str) and a.a[2].startswith("atomic:") and l.op == "eq":
                        items, c = lin_parts(l.a[0])
                        x = items[0][0]
                        if len(items) == 1 and x.op == "app" and x.a[0] == "band":
                            m = [y.a[0] for y in x.a[2:] if y.op == "int"]
                            if m and m[0] & (m[0] - 1) == 0:
                                flags, bit = a.a[2][7:], m[0]
            elif flags and e.kind in ("armw", "atry") and e.args[0] != flags and done is None:
                done = e.args[0]
    if flags is None or done is None:
        return None
    return flags, bit, done


class World:
    """All entry points of one feature set with slim traces, and the roles of the atomics."""

    def __init__(self, config="all", contents=False, only=None):
        self.config = config
        self.role = roles(config)
        self.flags, self.bit, self.done = self.role or (None, 1 << 5, None)
        self.p = Prog(config, slim=Slim(bits=self.bit, contents=contents))
        if only:
            ent = self.p.entries
            self.p.entries = lambda: [b for b in ent() if only(b["path"])]
        self.res = self.p.run_all()

    def report_gaps(self, ctx):
        if self.role is None:
            ctx.undecide("roles:" + self.config, "the run state and the counter could not be identified")
        for k, v in self.p.stuck.items():
            ctx.undecide("stuck:%s" % k, "could not analyse %s: %s" % (k, v))
        for k in self.p.unmodelled:
            ctx.undecide("unmodelled:" + k, "no model of %s" % k)

    def traces(self):
        """(entry, way out, events, state, value); loop bodies appear as one `loop` event."""
        for name, (fin, E) in self.res.items():
            for how, s, v in fin or []:
                yield name, how, s.events(), s, v

    def kind_of(self, name):
        return name.split(":")[0] if name.split(":")[0] in ("thread", "init") or name.startswith("signal ") else "entry"

    # -- tests on the run state --
    def running(self, e):
        """True/False when this test event settles the running bit, else None."""
        if e.kind != "test" or e.args[0] != self.flags:
            return None
        _k, mask, value, val, _age = e.args
        if mask == "all" or mask is None or not mask & self.bit:
            return None
        if val:
            return bool(value & self.bit)
        if mask == self.bit:
            return not value & self.bit
        return None


CURSOR = re.compile(rb"^(?:\x1b\[[?0-9;]*[A-Za-z])*$")
ERASE = re.compile(rb"\x1b\[[0-3]?[JK]")


def is_paint(e):
    """Writes to stderr that put progress output on screen (not cursor/erase codes, not a message)."""
    if e.kind == "writev":
        return e.args[0] == "stderr"
    if e.kind in ("write", "write_some") and e.args[0] == "stderr":
        c = e.args[1]
        return c == "data" or (isinstance(c, bytes) and not CURSOR.match(c))
    return False


def is_erase(e):
    return e.kind in ("write", "write_some") and e.args[0] == "stderr" and isinstance(e.args[1], bytes) and ERASE.search(e.args[1]) is not None


def flags_write(w, e):
    """What an event does to the running bit: 'clear', 'set', 'keep', or None when it is not a write to the run state
    (or the written value is unknown: 'unknown')."""
    if e.kind not in ("armw", "astore") or e.args[0] != w.flags:
        return None
    op = "store" if e.kind == "astore" else e.args[1]
    x = e.args[-1]
    if op in ("store", "swap"):
        return "unknown" if x is None else "set" if x & w.bit else "clear"
    if op == "fetch_and":
        return "unknown" if x is None else "keep" if x & w.bit else "clear"
    if op == "fetch_or":
        return "unknown" if x is None else "set" if x & w.bit else "keep"
    return "unknown"


def positions(w, evs):
    """Index of the load each running-test is about: {index of test: index of load}."""
    out = {}
    loads = []
    for i, e in enumerate(evs):
        if e.kind in ("aload", "armw") and e.args[0] == w.flags:
            loads.append(i)
        elif e.kind == "test" and e.args[0] == w.flags:
            age = e.args[4]
            if age < len(loads):
                out[i] = loads[-1 - age]
    return out


def flat(evs, cap=4000):
    """Straight-line variants of a trace: each loop is taken either zero times or once with each of its bodies."""
    out = [[]]
    for e in evs:
        if e.kind != "loop":
            for o in out:
                o.append(e)
            continue
        subs = {b for b, _ in bodies(e) if b}
        if len(subs) * len(out) > cap:
            subs = set(list(subs)[:max(1, cap // len(out))])
        new = []
        for o in out:
            new.append(list(o))
            for sb in subs:
                for f in flat(sb, cap):
                    new.append(o + f)
        out = new[:cap]
    return out


def replay(evs):
    """[(event, locks held before it)] for a straight-line trace."""
    held = []
    out = []
    for e in evs:
        out.append((e, tuple(held)))
        if e.kind in ("lock", "trylock"):
            held.append(e.args[0])
        elif e.kind == "unlock" and e.args[0] in held:
            i = len(held) - 1 - held[::-1].index(e.args[0])
            del held[i]
    return out
