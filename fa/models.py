"""Abstract models of the standard library and of the foreign crates (the trusted base).

Every model returns the list of (state, result) pairs that can follow the call.  A callee without a
model is handled by Engine.generic_model, which forgets everything it could touch.
"""
import re
from . import strev
from .terms import *
from .absint import ISIZE_MAX, USIZE_MAX

MODELS = {}
PATTERNS = []


def norm(path):
    """Drops generic arguments and lifetimes, and unifies core/alloc/std."""
    out = []
    i, n = 0, len(path)
    while i < n:
        c = path[i]
        if c == "<":
            prev = path[i - 1] if i else ""
            generic = (prev.isalnum() or prev in ("_", "}")) or (path[max(0, i - 2):i] == "::" and not path.startswith("<impl", i))
            if generic:
                d = 0
                while i < n:
                    if path[i] == "<":
                        d += 1
                    elif path[i] == ">" and path[i - 1] != "-":
                        d -= 1
                        if d == 0:
                            break
                    i += 1
                i += 1
                if out[-2:] == [":", ":"] and not path.startswith("::", i):
                    out = out[:-2]
                elif out[-2:] == [":", ":"] and path.startswith("::", i):
                    i += 2
                continue
        out.append(c)
        i += 1
    s = "".join(out)
    s = re.sub(r"'[a-z_]+ ", "", s)
    s = re.sub(r"\b(core|alloc)::", "std::", s)
    return s


class Models:
    def __init__(self, extra=None):
        self.cache = {}
        self.extra = extra or {}

    def get(self, k):
        if k is None:
            return None
        if k in self.cache:
            return self.cache[k]
        nk = norm(k)
        m = self.extra.get(nk) or MODELS.get(nk)
        if m is None:
            for rx, f in PATTERNS:
                if rx.search(nk):
                    m = f
                    break
        self.cache[k] = m
        return m


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pattern(*rxs):
    def d(f):
        for rx in rxs:
            PATTERNS.append((re.compile(rx), f))
        return f
    return d


# ---- helpers -------------------------------------------------------------------------------

def some(dty, v):
    return mk("agg", dty, 1, (v,))


def none(dty):
    return mk("agg", dty, 0, ())


def ok(dty, v):
    return mk("agg", dty, 0, (v,))


def err(dty, v):
    return mk("agg", dty, 1, (v,))


def payload_ty(E, dty, variant):
    f = E.field_types(dty, variant)
    return f[0] if f else None


def fork(E, st, lit, fr=None, note=False):
    """(state where lit holds or None, state where it does not or None)"""
    d = E.decide(st, lit)
    if d is True:
        return st, None
    if d is False:
        return None, st
    a, b = st.clone(), st
    if not E.assume(a, lit, True):
        a = None
    elif note:
        E.note_if(fr, a, lit, True)
    if not E.assume(b, lit, False):
        b = None
    elif note:
        E.note_if(fr, b, lit, False)
    return a, b


def val(E, st, v):
    """Follows references to the value itself (a string slice stays a slice)."""
    for _ in range(6):
        if v.op == "ref":
            v = E.read(st, ("mem", v.a[0], v.a[1]))
        else:
            break
    return v


def rope_of(E, st, v):
    return E.as_rope(st, v)


def type_name(E, ty):
    t = E.tyinfo(ty)
    return t["s"] if t else "?"


def root_type(E, st, root, fr=None):
    if root.op == "o":
        return root.a[1]
    if root.op == "static":
        return root.a[1]
    if root.op == "l":
        f = fr
        while f is not None:
            if f.fid == root.a[0]:
                return f.body["locals"][root.a[1]]
            f = f.parent
    v = st.mem.get(root)
    if v is not None:
        return E.typeof(v)
    if root.op == "k":
        return E.typeof(root.a[0])
    return None


def loc_name(E, st, v, fr):
    """Stable name of the storage behind a reference: owner type and field."""
    if v.op == "ref":
        root, path = v.a[0], v.a[1]
        ty = root_type(E, st, root, fr)
        name = type_name(E, ty) if ty is not None else str(root.op)
        for p in path:
            if p[0] == "f":
                t = E.tyinfo(ty)
                owner = t["s"] if t else "?"
                fname = str(p[1])
                if t and t.get("k") == "adt" and t.get("vars"):
                    fs = t["vars"][0][2]
                    if p[1] < len(fs):
                        fname = fs[p[1]][0]
                name = "%s.%s" % (owner, fname)
                ty = p[2]
        if root.op == "static" and not path:
            name = "static " + root.a[0]
        return name
    t = E.tyinfo(E.typeof(v))
    if v.op == "app" and v.a[0] == "once":
        return "static " + str(v.a[2].a[0])
    if t and "e" in t:
        return type_name(E, t["e"])
    return str(v)


def fresh(E, ty, what):
    return E.fresh(ty, what)


# ---- strings -------------------------------------------------------------------------------

def strv(E, st, v):
    return rope_of(E, st, v)


@model("std::str::<impl str>::len", "std::string::String::len", "std::slice::<impl [T]>::len", "std::vec::Vec::len",
       "dactyl::NiceWrapper::len", "dactyl::NiceElapsed::len")
def m_len(E, st, fr, info, args, dty):
    v = args[0]
    if v.op != "sr":
        x = val(E, st, v)
        if x.op == "it":
            return NotImplemented
        if v.op == "ref" and x.op == "agg" and (E.tyinfo(x.a[0]) or {}).get("k") == "array":
            return [(st, INT(len(x.a[2])))]
        t = E.tyinfo(E.typeof(x))
        if t and t.get("k") == "slice" and type_name(E, t["e"]) != "u8":
            return [(st, mk("len", x))]
    return [(st, E.simp(st, rope_len(strv(E, st, v))))]


@model("std::str::<impl str>::is_empty", "std::string::String::is_empty", "std::slice::<impl [T]>::is_empty", "std::vec::Vec::is_empty")
def m_is_empty(E, st, fr, info, args, dty):
    v = args[0]
    if v.op == "ref":
        x = val(E, st, v)
        if x.op == "agg" and (E.tyinfo(x.a[0]) or {}).get("k") == "array":
            return [(st, TRUE if not x.a[2] else FALSE)]
        if x.op in ("ioslices",):
            return [(st, EQ(mk("len", x), ZERO))]
    elif v.op not in ("sr",):
        t = E.tyinfo(E.typeof(v))
        e = E.tyinfo(t["e"]) if t and "e" in t else None
        if e and e.get("k") == "slice" and type_name(E, e["e"]) != "u8":
            return [(st, EQ(mk("len", v), ZERO))]
    return [(st, EQ(E.simp(st, rope_len(strv(E, st, v))), ZERO))]


@model("std::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::string::String::as_str", "std::string::String::as_mut_str",
       "<std::string::String as std::ops::Deref>::deref", "<std::string::String as std::ops::DerefMut>::deref_mut",
       "<std::vec::Vec as std::ops::Deref>::deref", "<std::vec::Vec as std::ops::DerefMut>::deref_mut",
       "<std::string::String as std::convert::AsRef>::as_ref", "<str as std::convert::AsRef>::as_ref", "std::vec::Vec::as_slice",
       "<std::string::String as std::borrow::Borrow>::borrow", "<std::vec::Vec as std::convert::AsRef>::as_ref",
       "dactyl::NiceWrapper::as_bytes", "dactyl::NiceWrapper::as_str", "dactyl::NiceElapsed::as_str", "dactyl::NiceElapsed::as_bytes",
       "<dactyl::NiceElapsed as std::ops::Deref>::deref", "<dactyl::NiceWrapper as std::ops::Deref>::deref",
       "dactyl::NiceClock::as_bytes", "dactyl::NiceClock::as_str", "<dactyl::NiceClock as std::ops::Deref>::deref",
       "utc2k::FmtUtc2k::as_str", "<utc2k::FmtUtc2k as std::ops::Deref>::deref", "<std::borrow::Cow as std::ops::Deref>::deref",
       "<std::borrow::Cow as std::convert::AsRef>::as_ref", "<std::borrow::Cow as std::borrow::Borrow>::borrow",
       "std::str::<impl str>::as_str", "<std::boxed::Box as std::ops::Deref>::deref", "<std::boxed::Box as std::convert::AsRef>::as_ref",
       "<str as std::borrow::Borrow>::borrow", "<T as std::borrow::Borrow>::borrow")
def m_as_str(E, st, fr, info, args, dty):
    v = args[0]
    if info["name"] == "borrow" and "T as" in (info.get("ipath") or ""):
        return [(st, v)]
    return [(st, mk("sr", strv(E, st, v)))]


@model("std::string::String::new", "std::string::String::with_capacity", "<std::string::String as std::default::Default>::default",
       "std::vec::Vec::new", "std::vec::Vec::with_capacity", "<std::vec::Vec as std::default::Default>::default")
def m_str_new(E, st, fr, info, args, dty):
    return [(st, EMPTY)]


@model("std::str::<impl std::borrow::ToOwned for str>::to_owned", "<std::string::String as std::clone::Clone>::clone",
       "std::borrow::Cow::into_owned", "std::string::String::into_bytes", "<std::string::String as std::convert::From>::from",
       "std::str::<impl str>::to_string", "std::str::<impl str>::into_string", "<str as std::string::ToString>::to_string",
       "std::slice::<impl [T]>::to_vec", "std::str::<impl str>::to_owned", "<std::string::String as std::string::ToString>::to_string",
       "<str as std::string::SpecToString>::spec_to_string", "std::borrow::Cow::to_mut", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned",
       "<std::vec::Vec as std::clone::Clone>::clone", "<std::vec::Vec as std::convert::From>::from", "std::string::String::into_boxed_str")
def m_owned(E, st, fr, info, args, dty):
    t = E.tyinfo(dty)
    if t and t.get("k") in ("ref",):
        return NotImplemented
    if info.get("ipath", "") and "From<char>" in info["ipath"]:
        return [(st, rope(char_seg(args[0])))]
    return [(st, strv(E, st, args[0]))]


@model("<T as std::string::ToString>::to_string", "<T as std::string::SpecToString>::spec_to_string")
def m_to_string(E, st, fr, info, args, dty):
    v = val(E, st, args[0])
    if v.op in ("rope", "sr"):
        return [(st, strv(E, st, v))]
    t = E.tyinfo(E.typeof(v))
    if t and t.get("s") in ("&str", "std::string::String", "&std::string::String"):
        return [(st, strv(E, st, v))]
    return [(st, whole(mk("app", "display", None, v)))]


def char_seg(c):
    if c.op == "int":
        return lit(chr(c.a[0]))
    return mk("chr", c)


@model("std::string::String::push_str", "std::vec::Vec::extend_from_slice")
def m_push_str(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    E.write(st, loc, cat(strv(E, st, E.read(st, loc)), strv(E, st, args[1])))
    return [(st, E.unit())]


@model("std::string::String::push")
def m_push(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    c = args[1]
    lo, hi = E.bound(st, c) if c.op != "int" else (None, None)
    if lo is not None and lo == hi:
        c = INT(lo)
    E.write(st, loc, cat(strv(E, st, E.read(st, loc)), rope(char_seg(c))))
    return [(st, E.unit())]


@model("std::vec::Vec::push")
def m_vpush(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    cur = E.read(st, loc)
    if type_name(E, (info.get("iargs") or info["args"])[0]) != "u8":
        return NotImplemented
    b = args[1]
    seg = lit(bytes([b.a[0]])) if b.op == "int" else mk("bytev", b)
    E.write(st, loc, cat(strv(E, st, cur), rope(seg)))
    return [(st, E.unit())]


@model("std::string::String::clear", "std::vec::Vec::clear")
def m_clear(E, st, fr, info, args, dty):
    E.write(st, E.deref_loc(st, args[0]), EMPTY)
    return [(st, E.unit())]


@model("std::string::String::truncate", "std::vec::Vec::truncate")
def m_truncate(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    cur = strv(E, st, E.read(st, loc))
    n = E.simp(st, args[1])
    out = []
    a, b = fork(E, st, LT(n, rope_len(cur)))
    if a is not None:
        r = E.slice_rope(a, cur, ZERO, n)
        if r is None:
            a.weak = a.weak or "truncate"
            r = whole(fresh(E, None, "truncated"))
        if "String" in (info.get("ipath") or info["path"]):
            boundary_check(E, a, fr, cur, n)
        E.write(a, loc, r)
        out.append((a, E.unit()))
    if b is not None:
        # (nothing can be longer than zero bytes and not be cut, so nothing is left)
        E.write(b, loc, EMPTY if is_int(n, 0) else E.read(b, loc))
        out.append((b, E.unit()))
    return out


def locate(E, st, r, off):
    """(segment, relative offset, at_start) containing byte offset `off`, or None."""
    pos = ZERO
    off = E.simp(st, off)
    for s in r.a:
        if E.decide(st, EQ(off, pos)) is True:
            return s, ZERO
        nxt = add(pos, seg_len(s))
        d = E.decide(st, LT(off, nxt))
        if d is True:
            if E.decide(st, LE(pos, off)) is True:
                return s, E.simp(st, sub(off, pos))
            return None
        if d is None:
            return None
        pos = nxt
    return None


def is_boundary(E, st, r, off):
    off = E.simp(st, off)
    pos = ZERO
    if E.decide(st, EQ(off, ZERO)) is True or E.decide(st, EQ(off, rope_len(r))) is True:
        return True
    for s in r.a:
        nxt = add(pos, seg_len(s))
        if E.decide(st, EQ(off, nxt)) is True:
            return True
        if E.decide(st, LE(off, nxt)) is True and E.decide(st, LE(pos, off)) is True:
            rel = E.simp(st, sub(off, pos))
            if s.op == "lit":
                if rel.op == "int":
                    b = s.a[0]
                    i = rel.a[0]
                    return i >= len(b) or (b[i] & 0xC0) != 0x80
                return all(x < 0x80 for x in s.a[0]) or None
            if s.op == "sub":
                return base_boundary(E, st, s.a[0], E.simp(st, add(s.a[1], rel)))
            if s.op == "rep":
                return True
            return None
        pos = nxt
    return None


def base_boundary(E, st, base, m):
    if m.op == "int" and m.a[0] == 0:
        return True
    if base.op in ("lit",):
        return None
    if st.lits.get(mk("bnd", base, m)) is True:
        return True
    if E.decide(st, EQ(m, baselen(base))) is True:
        return True
    lo, hi = E.bound(st, mk("byte", base, m))
    if hi is not None and hi < 0x80:
        return True
    p = E.simp(st, addc(m, -1))
    lo, hi = E.bound(st, mk("byte", base, p))
    if hi is not None and hi < 0x80 and E.decide(st, LE(ONE, m)) is True:
        return True
    lo, hi = E.bound(st, mk("ch", base, p))
    if hi is not None and hi < 0x80:
        return True
    # a boundary known at an equal position
    for k, v in st.lits.items():
        if v is True and k.op == "bnd" and k.a[0] is base and E.decide(st, EQ(k.a[1], m)) is True:
            return True
    return None


def boundary_check(E, st, fr, r, off, what="char boundary"):
    b = is_boundary(E, st, r, off)
    if b is not True:
        E.panic(st.clone(), fr, what, (r, off), b is False)
    else:
        E.proved = getattr(E, "proved", 0) + 1
    return b


def range_bounds(E, st, rng, n, info_ty):
    """(lo, hi) of a range value over a sequence of length n."""
    t = E.tyinfo(E.typeof(rng)) if rng.op != "agg" else E.tyinfo(rng.a[0])
    p = t["path"].split("::")[-1] if t and t.get("k") == "adt" else None
    f = lambda i: E.simp(st, rng.a[2][i] if rng.op == "agg" else mk("fld", rng, -1, i, E.p.ty("usize")))
    if p == "Range":
        return f(0), f(1)
    if p == "RangeFrom":
        return f(0), n
    if p == "RangeTo":
        return ZERO, f(0)
    if p == "RangeToInclusive":
        return ZERO, addc(f(0), 1)
    if p == "RangeInclusive":
        return f(0), addc(f(1), 1)
    if p == "RangeFull":
        return ZERO, n
    return None


@model("std::string::String::replace_range")
def m_replace_range(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    cur = strv(E, st, E.read(st, loc))
    n = rope_len(cur)
    b = range_bounds(E, st, args[1], n, None)
    new = strv(E, st, args[2])
    if b is None:
        return NotImplemented
    lo, hi = b
    for cond, what in ((LE(lo, hi), "replace_range start>end"), (LE(hi, n), "replace_range end>len")):
        d = E.decide(st, cond)
        if d is not True:
            bad = st.clone()
            if d is False or E.assume(bad, cond, False):
                E.panic(bad, fr, what, (cur, lo, hi), d is False)
            if d is False or not E.assume(st, cond, True):
                return []
        else:
            E.proved = getattr(E, "proved", 0) + 1
    boundary_check(E, st, fr, cur, lo)
    boundary_check(E, st, fr, cur, hi)
    x = E.split_at(st, cur, hi)
    y = E.split_at(st, x[0], lo) if x is not None else None
    if y is None:
        st.weak = st.weak or "replace_range position"
        E.event(st, "replaced", (cur, lo, hi, None, new), fr)
        E.write(st, loc, whole(fresh(E, None, "replaced")))
        return [(st, E.unit())]
    E.event(st, "replaced", (cur, lo, hi, y[1], new), fr)
    E.write(st, loc, cat(y[0], new, x[1]))
    return [(st, E.unit())]


@model("std::string::String::insert_str")
def m_insert_str(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    cur = strv(E, st, E.read(st, loc))
    i = args[1]
    d = E.decide(st, LE(i, rope_len(cur)))
    if d is not True:
        E.panic(st.clone(), fr, "insert_str", (cur, i), d is False)
        if d is False:
            return []
    boundary_check(E, st, fr, cur, i)
    x = E.split_at(st, cur, i)
    if x is None:
        return NotImplemented
    E.write(st, loc, cat(x[0], strv(E, st, args[2]), x[1]))
    return [(st, E.unit())]


def is_utf8_arg(info):
    p = info.get("ipath") or info["path"]
    return "str" in p.split("for ")[-1].split("::")[0] or "impl str" in p or "for str" in p or "String" in p


@model("std::str::<impl str>::get", "std::slice::<impl [T]>::get")
def m_get(E, st, fr, info, args, dty):
    v, rng = args[0], args[1]
    x = val(E, st, v) if v.op == "ref" else v
    t = E.tyinfo(E.typeof(rng)) if rng.op != "agg" else E.tyinfo(rng.a[0])
    isrange = t is not None and t.get("k") == "adt" and "Range" in t["path"]
    if not isrange:
        return get_index(E, st, fr, v, x, rng, dty)
    cur = strv(E, st, v)
    n = rope_len(cur)
    b = range_bounds(E, st, rng, n, None)
    if b is None:
        return NotImplemented
    lo, hi = b
    out = []
    cond = [LE(lo, hi), LE(hi, n)]
    live = st
    for c in cond:
        a, bad = fork(E, live, c)
        if bad is not None:
            out.append((bad, none(dty)))
        if a is None:
            return out
        live = a
    if "impl str" in (info.get("ipath") or info["path"]):
        for p in (lo, hi):
            bd = is_boundary(E, live, cur, p)
            if bd is False:
                return out + [(live, none(dty))]
            if bd is None:
                out.append((live.clone(), none(dty)))
    r = E.slice_rope(live, cur, lo, hi)
    if r is None:
        r = whole(mk("app", "slice", None, cur, lo, hi))
        E.assume(live, EQ(rope_len(r), sub(hi, lo)), True)
    out.append((live, some(dty, mk("sr", r))))
    return out


def get_index(E, st, fr, v, x, i, dty):
    out = []
    n = E.length(st, x) if x.op != "sr" else rope_len(x.a[0])
    a, b = fork(E, st, LT(i, n))
    if a is not None:
        if v.op == "ref":
            out.append((a, some(dty, mk("ref", v.a[0], v.a[1] + (("i", i),)))))
        else:
            e = E.byte_at(a, strv(E, a, v), i)
            root = mk("k", e)
            a.mem[root] = e
            out.append((a, some(dty, mk("ref", root, ()))))
    if b is not None:
        out.append((b, none(dty)))
    return out


@model("std::str::traits::<impl std::ops::Index for str>::index", "std::slice::index::<impl std::ops::Index for [T]>::index",
       "std::array::<impl std::ops::Index for [T; N]>::index", "<std::string::String as std::ops::Index>::index",
       "<std::vec::Vec as std::ops::Index>::index", "std::string::<impl std::ops::Index for std::string::String>::index")
def m_index(E, st, fr, info, args, dty):
    v, rng = args[0], args[1]
    x = val(E, st, v) if v.op == "ref" else v
    t = E.tyinfo(E.typeof(rng)) if rng.op != "agg" else E.tyinfo(rng.a[0])
    isrange = t is not None and t.get("k") == "adt" and "Range" in t["path"]
    bytesy = x.op in ("sr", "rope", "bytes")
    if not bytesy:
        tt = E.tyinfo(E.typeof(x))
        while tt is not None and tt.get("k") == "ref":
            tt = E.tyinfo(tt["e"])
        bytesy = tt is not None and (tt.get("k") == "str" or tt.get("path", "").endswith("String") or (tt.get("k") in ("slice", "array") and type_name(E, tt["e"]) == "u8")
                                     or (tt.get("path", "").endswith("Vec") and type_name(E, tt["args"][0]) == "u8"))
    if x.op == "agg" and isrange and not bytesy:
        return NotImplemented
    if not isrange:
        n = E.length(st, x) if x.op != "sr" else rope_len(x.a[0])
        d = E.decide(st, LT(rng, n))
        if d is not True:
            E.panic(st.clone(), fr, "index", (x, rng), d is False)
            if not E.assume(st, LT(rng, n), True):
                return []
        if v.op == "ref":
            return [(st, mk("ref", v.a[0], v.a[1] + (("i", rng),)))]
        return NotImplemented
    cur = strv(E, st, v)
    n = rope_len(cur)
    b = range_bounds(E, st, rng, n, None)
    if b is None:
        return NotImplemented
    lo, hi = b
    for c in (LE(lo, hi), LE(hi, n)):
        d = E.decide(st, c)
        if d is not True:
            bad = st.clone()
            if d is False or E.assume(bad, c, False):
                E.panic(bad, fr, "slice index", (cur, lo, hi), d is False)
            if d is False or not E.assume(st, c, True):
                return []
        else:
            E.proved = getattr(E, "proved", 0) + 1
    if "for str" in (info.get("ipath") or info["path"]) or "String" in (info.get("ipath") or info["path"]):
        boundary_check(E, st, fr, cur, lo)
        boundary_check(E, st, fr, cur, hi)
    r = E.slice_rope(st, cur, lo, hi)
    if r is None:
        r = whole(mk("app", "slice", None, cur, lo, hi))
        E.assume(st, EQ(rope_len(r), sub(hi, lo)), True)
    return [(st, mk("sr", r))]


@model("std::str::<impl str>::split_at_checked", "std::str::<impl str>::split_at", "std::slice::<impl [T]>::split_at")
def m_split_at(E, st, fr, info, args, dty):
    cur = strv(E, st, args[0])
    n = rope_len(cur)
    m = E.simp(st, args[1])
    out = []
    a, b = fork(E, st, LE(m, n))
    checked = "checked" in info["name"]
    bad = []
    if b is not None:
        bad.append((b, True))
    if a is not None:
        if "impl str" in (info.get("ipath") or info["path"]):
            bd = is_boundary(E, a, cur, m)
            if bd is not True:
                bad.append((a.clone(), bd is False))
            if bd is False:
                a = None
    for s, c in bad:
        if checked:
            out.append((s, none(dty)))
        else:
            E.panic(s, fr, "split_at", (cur, m), c)
    if a is not None:
        x = E.split_at(a, cur, m)
        if x is None:
            l, r = whole(mk("app", "slice", None, cur, ZERO, m)), whole(mk("app", "slice", None, cur, m, n))
            E.assume(a, EQ(rope_len(l), m), True)
            E.assume(a, EQ(rope_len(r), sub(n, m)), True)
            x = (l, r)
        tup_ty = payload_ty(E, dty, 1) if checked else dty
        tup = mk("agg", tup_ty, 0, (mk("sr", x[0]), mk("sr", x[1])))
        out.append((a, some(dty, tup) if checked else tup))
    return out


TRIMS = ("trim", "trim_end", "trim_start", "trim_ascii", "trim_ascii_end", "trim_ascii_start", "to_lowercase", "to_ascii_lowercase",
         "to_uppercase", "to_ascii_uppercase")


@model(*["std::str::<impl str>::" + n for n in TRIMS] + ["std::slice::ascii::<impl [u8]>::" + n for n in TRIMS])
def m_trim(E, st, fr, info, args, dty):
    r = strv(E, st, args[0])
    n = info["name"]
    l = rope_lit(r)
    if l is not None:
        try:
            v = rlit(strev.sev(mk("app", n, None, r), {}))
        except strev.Unknown:
            return NotImplemented
    else:
        x = mk("app", n, None, r)
        v = whole(x)
        if n.startswith("trim"):
            E.assume(st, LE(rope_len(v), rope_len(r)), True)
    t = E.tyinfo(dty)
    if t and t.get("k") == "ref":
        v = mk("sr", v)
    return [(st, v)]


@model("std::str::traits::<impl std::cmp::PartialEq for str>::eq", "<std::string::String as std::cmp::PartialEq>::eq",
       "std::slice::cmp::<impl std::cmp::PartialEq for [T]>::eq", "std::string::<impl std::cmp::PartialEq for std::string::String>::eq",
       "std::string::<impl std::cmp::PartialEq for str>::eq", "std::array::equality::<impl std::cmp::PartialEq for [T; N]>::eq",
       "std::array::equality::<impl std::cmp::PartialEq for [T]>::eq", "std::str::<impl str>::eq_ignore_ascii_case",
       "std::slice::ascii::<impl [u8]>::eq_ignore_ascii_case",
       "<std::vec::Vec as std::cmp::PartialEq>::eq", "<std::borrow::Cow as std::cmp::PartialEq>::eq")
def m_str_eq(E, st, fr, info, args, dty):
    a, b = strv(E, st, args[0]), strv(E, st, args[1])
    if info["name"] == "eq_ignore_ascii_case":
        la, lb = rope_lit(a), rope_lit(b)
        if la is not None and lb is not None:
            return [(st, TRUE if la.lower() == lb.lower() else FALSE)]
        a = whole(mk("app", "to_ascii_lowercase", None, a)) if la is None else rlit(la.lower())
        b = whole(mk("app", "to_ascii_lowercase", None, b)) if lb is None else rlit(lb.lower())
    return [(st, rope_eq(E, st, a, b))]


def rope_eq(E, st, a, b):
    if a is b:
        return TRUE
    la, lb = rope_lit(a), rope_lit(b)
    if la is not None and lb is not None:
        return TRUE if la == lb else FALSE
    if E.decide(st, EQ(rope_len(a), rope_len(b))) is False:
        return FALSE
    l = mk("same", *sorted((a, b), key=lambda t: t.id))
    d = E.decide(st, l)
    if d is not None:
        return TRUE if d else FALSE
    return l


@model("std::str::<impl str>::trim_end_matches", "std::str::<impl str>::trim_start_matches", "std::str::<impl str>::trim_matches")
def m_trim_matches(E, st, fr, info, args, dty):
    r = strv(E, st, args[0])
    p = args[1]
    if p.op == "int":
        q = rlit(chr(p.a[0]))
    elif p.op in ("sr", "ref"):
        q = strv(E, st, p)
    else:
        return NotImplemented
    x = mk("app", info["name"], None, r, q)
    if rope_lit(r) is not None and rope_lit(q):
        return [(st, mk("sr", rlit(strev.sev(x, {}))))]
    v = whole(x)
    E.assume(st, LE(rope_len(v), rope_len(r)), True)
    return [(st, mk("sr", v))]


@model("std::str::<impl str>::starts_with", "std::str::<impl str>::ends_with", "std::str::<impl str>::contains", "std::slice::<impl [T]>::starts_with",
       "std::slice::<impl [T]>::ends_with", "std::slice::<impl [T]>::contains")
def m_affix(E, st, fr, info, args, dty):
    r = strv(E, st, args[0])
    p = args[1]
    if p.op == "int":
        pr = rlit(chr(p.a[0]))
    elif p.op in ("sr", "ref"):
        pr = strv(E, st, p)
    else:
        return NotImplemented
    l, q = rope_lit(r), rope_lit(pr)
    if l is not None and q is not None:
        f = {"starts_with": l.startswith, "ends_with": l.endswith, "contains": lambda x: x in l}[info["name"]]
        return [(st, TRUE if f(q) else FALSE)]
    return [(st, mk("app", info["name"], E.p.ty("bool"), r, pr))]


@model("std::str::<impl str>::repeat")
def m_repeat(E, st, fr, info, args, dty):
    l = rope_lit(strv(E, st, args[0]))
    if l is None:
        return NotImplemented
    n = args[1]
    if n.op == "int":
        return [(st, rlit(l * n.a[0]))]
    return [(st, rope(mk("rep", l, n)))]


@model("<std::string::String as std::cmp::Ord>::cmp", "std::str::traits::<impl std::cmp::Ord for str>::cmp", "<std::string::String as std::cmp::PartialOrd>::partial_cmp")
def m_str_cmp(E, st, fr, info, args, dty):
    a, b = strv(E, st, args[0]), strv(E, st, args[1])
    if info["name"] == "partial_cmp":
        return [(st, some(dty, mk("app", "strcmp", payload_ty(E, dty, 1), a, b)))]
    return [(st, mk("app", "strcmp", dty, a, b))]


@model("<std::string::String as std::hash::Hash>::hash", "std::hash::impls::<impl std::hash::Hash for str>::hash")
def m_str_hash(E, st, fr, info, args, dty):
    E.event(st, "hash", ("str", strv(E, st, args[0])), fr)
    return [(st, E.unit())]


@model("std::hash::impls::<impl std::hash::Hash for [T]>::hash", "<std::vec::Vec<T, A> as std::hash::Hash>::hash")
def m_slice_hash(E, st, fr, info, args, dty):
    try:
        r = strv(E, st, args[0])
    except Exception:
        return NotImplemented
    E.event(st, "hash", ("bytes", r), fr)
    return [(st, E.unit())]


@pattern(r"impl std::hash::Hash for \w+>::hash$|Hasher::write(_\w+)?$")
def m_int_hash(E, st, fr, info, args, dty):
    v = args[0] if "Hash for" in (info.get("ipath") or "") else args[1]
    E.event(st, "hash", (info["name"], val(E, st, v)), fr)
    return [(st, E.unit())]


# ---- characters ----------------------------------------------------------------------------

@model("std::char::methods::<impl char>::len_utf8")
def m_len_utf8(E, st, fr, info, args, dty):
    return [(st, E.simp(st, len8(args[0])))]


def chr_pred(name, f):
    def m(E, st, fr, info, args, dty):
        c = val(E, st, args[0])
        lo, hi = E.lin_bound(st, c)
        if lo is not None and lo == hi:
            return [(st, TRUE if f(chr(lo)) else FALSE)]
        if lo is not None and hi is not None and hi < 0x100:
            r = set(f(chr(i)) for i in range(lo, hi + 1))
            if len(r) == 1:
                return [(st, TRUE if r.pop() else FALSE)]
        return [(st, mk("app", name, E.p.ty("bool"), c))]
    return m


import unicodedata
for _n, _f in (("is_control", lambda c: unicodedata.category(c) == "Cc"), ("is_whitespace", lambda c: c.isspace() and c not in "\x1c\x1d\x1e\x1f"),
               ("is_ascii", lambda c: ord(c) < 128), ("is_ascii_control", lambda c: ord(c) < 32 or ord(c) == 127), ("is_ascii_whitespace", lambda c: c in " \t\n\r\x0c"),
               ("is_alphabetic", lambda c: c.isalpha()), ("is_ascii_alphabetic", lambda c: ord(c) < 128 and c.isalpha()), ("is_ascii_digit", lambda c: c in "0123456789"),
               ("is_ascii_graphic", lambda c: 33 <= ord(c) <= 126), ("is_ascii_punctuation", lambda c: 33 <= ord(c) <= 126 and not c.isalnum()),
               ("is_ascii_alphanumeric", lambda c: ord(c) < 128 and c.isalnum())):
    MODELS["std::char::methods::<impl char>::" + _n] = chr_pred(_n, _f)
    MODELS["std::num::<impl u8>::" + _n] = chr_pred("u8_" + _n, _f)


@pattern(r"UnicodeWidthChar>::width$")
def m_uwidth(E, st, fr, info, args, dty):
    c = args[0]
    a, b = fork(E, st, mk("app", "nowidth", E.p.ty("bool"), c))
    out = []
    if b is not None:
        out.append((b, some(dty, mk("app", "width", E.p.ty("usize"), c))))
    if a is not None:
        out.append((a, none(dty)))
    return out


@model("std::clone::impls::<impl std::clone::Clone for char>::clone")
def m_clone_copy(E, st, fr, info, args, dty):
    return [(st, E.pointee(st, args[0]))]


@pattern(r"clone::impls::<impl std::clone::Clone for \w+>::clone$")
def m_clone_prim(E, st, fr, info, args, dty):
    return [(st, E.pointee(st, args[0]))]


# ---- iterators -----------------------------------------------------------------------------

def it(kind, base, pos, end, *extra):
    return mk("it", kind, base, pos, end, *extra)


@model("std::str::<impl str>::chars")
def m_chars(E, st, fr, info, args, dty):
    r = strv(E, st, args[0])
    return [(st, it("chars", r, ZERO, E.simp(st, rope_len(r))))]


@model("std::str::<impl str>::char_indices")
def m_char_indices(E, st, fr, info, args, dty):
    r = strv(E, st, args[0])
    return [(st, it("charidx", r, ZERO, E.simp(st, rope_len(r))))]


@model("std::str::<impl str>::bytes")
def m_bytes(E, st, fr, info, args, dty):
    r = strv(E, st, args[0])
    return [(st, it("bytes", r, ZERO, E.simp(st, rope_len(r))))]


@model("std::slice::<impl [T]>::windows")
def m_windows(E, st, fr, info, args, dty):
    r = strv(E, st, args[0])
    n = args[1]
    if n.op != "int":
        return NotImplemented
    return [(st, it("windows", r, ZERO, E.simp(st, rope_len(r)), n))]


@model("std::slice::<impl [T]>::iter", "std::slice::<impl [T]>::iter_mut", "std::slice::iter::<impl std::iter::IntoIterator for &[T]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &[T; N]>::into_iter", "std::slice::iter::<impl std::iter::IntoIterator for &mut [T]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &mut [T; N]>::into_iter")
def m_slice_iter(E, st, fr, info, args, dty):
    v = args[0]
    x = val(E, st, v) if v.op == "ref" else v
    if x.op in ("rope", "sr", "bytes"):
        r = strv(E, st, x)
        return [(st, it("bslice", mk("sr", r), ZERO, E.simp(st, rope_len(r))))]
    t = E.tyinfo(E.typeof(x))
    if t and t.get("k") == "ref":
        t = E.tyinfo(t["e"])
    if t and t.get("k") in ("slice",) and type_name(E, t["e"]) == "u8":
        r = strv(E, st, v)
        return [(st, it("bslice", mk("sr", r), ZERO, E.simp(st, rope_len(r))))]
    if v.op != "ref":
        loc = E.deref_loc(st, v)
        v = mk("ref", loc[1], loc[2])
        x = E.read(st, loc)
    return [(st, it("slice", v, ZERO, E.length(st, x)))]


@model("std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def m_array_into(E, st, fr, info, args, dty):
    v = args[0]
    return [(st, it("array", v, ZERO, E.length(st, v)))]


@model("std::str::<impl str>::split_inclusive")
def m_split_inclusive(E, st, fr, info, args, dty):
    r = strv(E, st, args[0])
    p = args[1]
    if not (p.op == "int" and p.a[0] == 10):
        return NotImplemented
    return [(st, it("splitinc", r, ZERO, E.simp(st, rope_len(r))))]


@model("<&std::collections::BTreeSet as std::iter::IntoIterator>::into_iter", "std::collections::BTreeSet::iter")
def m_btree_iter(E, st, fr, info, args, dty):
    v = val(E, st, args[0])
    if v.op not in ("ev", "w", "fld", "app", "deref", "sym", "bset"):
        return NotImplemented
    if args[0].op != "ref":
        v = E.pointee(st, args[0])
    return [(st, it("btree", v, ZERO, mk("len", v)))]


def char_at(E, st, r, pos):
    x = locate(E, st, r, pos)
    if x is None:
        return mk("app", "charof", E.p.ty("char"), r, pos)
    s, rel = x
    if s.op == "lit" and rel.op == "int":
        return INT(ord(s.a[0][rel.a[0]:].decode("utf-8", "replace")[0]))
    if s.op == "sub":
        b = E.simp(st, add(s.a[1], rel))
        if s.a[0].op == "lit" and b.op == "int":
            return INT(ord(s.a[0].a[0][b.a[0]:].decode("utf-8", "replace")[0]))
        c = mk("ch", s.a[0], b)
        lo, hi = E.bound(st, mk("byte", s.a[0], b))
        if lo == hi and hi is not None and hi < 0x80:
            return INT(hi)
        lo, hi = E.bound(st, c)
        if lo == hi:
            return INT(lo)
        return c
    if s.op == "chr" and rel is ZERO:
        return s.a[0]
    return mk("app", "charof", E.p.ty("char"), r, pos)


def note_boundary(E, st, r, pos):
    x = locate(E, st, r, pos)
    if x is not None and x[0].op == "sub":
        s, rel = x
        st.lits[mk("bnd", s.a[0], E.simp(st, add(s.a[1], rel)))] = True
    elif x is None:
        # the end of the last segment is always a boundary; record against a single segment
        if len(r.a) == 1 and r.a[0].op == "sub":
            s = r.a[0]
            st.lits[mk("bnd", s.a[0], E.simp(st, add(s.a[1], pos)))] = True


def char_step(E, st, r, pos, end):
    """Advances over one character: (char, new position)."""
    c = char_at(E, st, r, pos)
    n = E.simp(st, add(pos, len8(c)))
    E.assume(st, LE(n, end), True)
    note_boundary(E, st, r, n)
    return c, n


def next_model(kinds):
    pass


@pattern(r"^<std::(str::(Chars|CharIndices|Bytes|SplitInclusive)|slice::(Iter|IterMut|Windows)|array::IntoIter|collections::btree_set::Iter) as std::iter::Iterator>::next$")
def m_next(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    v = E.read(st, loc)
    if v.op != "it":
        return NotImplemented
    return it_next(E, st, fr, loc, v, dty)


def it_next(E, st, fr, loc, v, dty):
    kind, base, pos, end = v.a[:4]
    pos = E.simp(st, pos)
    ext = v.a[4:]
    out = []
    more = LT(pos, end)
    if kind == "windows":
        more = LE(add(pos, ext[0]), end)
    a, b = fork(E, st, more)
    if b is not None:
        if b is st or True:
            E.write(b, loc, mk("it", kind, base, pos, end, *ext))
        out.append((b, none(dty)))
    if a is None:
        return out
    if kind in ("chars", "charidx"):
        c, n = char_step(E, a, base, pos, end)
        E.write(a, loc, it(kind, base, n, end, *ext))
        item = c if kind == "chars" else mk("agg", payload_ty(E, dty, 1), 0, (pos, c))
    elif kind == "windows":
        r = E.slice_rope(a, base, pos, add(pos, ext[0]))
        E.write(a, loc, it(kind, base, E.simp(a, addc(pos, 1)), end, *ext))
        item = mk("sr", r if r is not None else whole(fresh(E, None, "window")))
    elif kind == "slice":
        E.write(a, loc, it(kind, base, E.simp(a, addc(pos, 1)), end, *ext))
        item = mk("ref", base.a[0], base.a[1] + (("i", pos),))
    elif kind in ("bslice", "bytes"):
        r = base.a[0] if kind == "bslice" else base
        E.write(a, loc, it(kind, base, E.simp(a, addc(pos, 1)), end, *ext))
        x = E.byte_at(a, r, pos)
        if kind == "bslice":
            root = mk("k", x)
            a.mem[root] = x
            item = mk("ref", root, ())
        else:
            item = x
    elif kind == "array":
        E.write(a, loc, it(kind, base, E.simp(a, addc(pos, 1)), end, *ext))
        item = base.a[2][pos.a[0]] if pos.op == "int" and base.op == "agg" else mk("app", "idx", payload_ty(E, dty, 1), base, pos)
    elif kind == "btree":
        E.write(a, loc, it(kind, base, E.simp(a, addc(pos, 1)), end, *ext))
        e = whole(mk("app", "elem", None, base, pos))
        root = mk("k", e)
        a.mem[root] = e
        item = mk("ref", root, ())
    elif kind == "splitinc":
        eol = mk("app", "eol", E.p.ty("usize"), base, pos)
        E.assume(a, LT(pos, eol), True)
        E.assume(a, LE(eol, end), True)
        r = E.slice_rope(a, base, pos, eol)
        E.write(a, loc, it(kind, base, E.simp(a, eol), end, *ext))
        note_boundary(E, a, base, eol)
        a.lits[mk("line", base, pos)] = True
        item = mk("sr", r if r is not None else whole(fresh(E, None, "line")))
    else:
        return NotImplemented
    out.append((a, some(dty, item)))
    return out


@pattern(r"^<std::slice::(Iter|IterMut) as std::iter::Iterator>::nth$")
def m_nth(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    v = E.read(st, loc)
    if v.op != "it":
        return NotImplemented
    kind, base, pos, end = v.a[:4]
    p = E.simp(st, add(pos, args[1]))
    a, b = fork(E, st, LT(p, end))
    out = []
    if b is not None:
        E.write(b, loc, it(kind, base, end, end, *v.a[4:]))
        out.append((b, none(dty)))
    if a is not None:
        out.extend(it_next(E, a, fr, loc, it(kind, base, p, end, *v.a[4:]), dty))
    return out


@pattern(r"^<std::(str::(Chars|CharIndices|Bytes|SplitInclusive)|slice::(Iter|IterMut|Windows)) as std::clone::Clone>::clone$")
def m_it_clone(E, st, fr, info, args, dty):
    return [(st, E.pointee(st, args[0]))]


@pattern(r"^<std::str::Chars as std::iter::Iterator>::size_hint$")
def m_size_hint(E, st, fr, info, args, dty):
    return [(st, fresh(E, dty, "size_hint"))]


@model("std::str::Chars::as_str", "std::str::CharIndices::as_str")
def m_chars_as_str(E, st, fr, info, args, dty):
    v = E.pointee(st, args[0])
    if v.op != "it":
        return NotImplemented
    r = E.slice_rope(st, v.a[1], v.a[2], v.a[3])
    return [(st, mk("sr", r if r is not None else whole(fresh(E, None, "rest"))))]


@model("std::str::CharIndices::offset")
def m_ci_offset(E, st, fr, info, args, dty):
    v = E.pointee(st, args[0])
    if v.op != "it":
        return NotImplemented
    return [(st, v.a[2])]


@model("<std::vec::Vec as std::iter::Extend>::extend")
def m_vec_extend(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    v = args[1]
    lim = None
    if v.op == "agg" and (E.tyinfo(v.a[0]) or {}).get("path", "").endswith("Take"):
        lim = v.a[2][1]
        v = v.a[2][0]
    if v.op == "agg" and (E.tyinfo(v.a[0]) or {}).get("path", "").endswith("Copied"):
        v = v.a[2][0]
    if v.op in ("sr",):
        r = strv(E, st, v)
    elif v.op == "it" and v.a[0] in ("bytes", "bslice"):
        base = v.a[1] if v.a[0] == "bytes" else v.a[1].a[0]
        lo, hi = v.a[2], v.a[3]
        if lim is not None:
            a, b = fork(E, st, LE(add(lo, lim), hi))
            out = []
            for s, h in ((a, E.simp(st, add(lo, lim))), (b, hi)):
                if s is None:
                    continue
                r = E.slice_rope(s, base, lo, h)
                if r is None:
                    r = whole(mk("app", "slice", None, base, lo, h))
                    E.assume(s, EQ(rope_len(r), sub(h, lo)), True)
                E.write(s, loc, cat(strv(E, s, E.read(s, loc)), r))
                out.append((s, E.unit()))
            return out
        r = E.slice_rope(st, base, lo, hi)
        if r is None:
            return NotImplemented
    else:
        return NotImplemented
    E.write(st, loc, cat(strv(E, st, E.read(st, loc)), r))
    return [(st, E.unit())]


@model("<T as std::string::SpecExtendStr>::spec_extend_into")
def m_spec_extend(E, st, fr, info, args, dty):
    return NotImplemented


# ---- numbers -------------------------------------------------------------------------------

@pattern(r"num::<impl \w+>::(wrapping|unchecked)_(add|sub|mul)$")
def m_wrapping(E, st, fr, info, args, dty):
    k = info["name"].rsplit("_", 1)[1]
    r = E.int_range(dty)
    v = add(args[0], args[1]) if k == "add" else sub(args[0], args[1]) if k == "sub" else mul(args[0], args[1])
    v = E.simp(st, v)
    out, live, m = [], st, r[1] - r[0] + 1
    for c, fix in ((LE(INT(r[0]), v), m), (LE(v, INT(r[1])), -m)):
        a, b = fork(E, live, c)
        if b is not None:
            w = E.simp(b, add(v, INT(fix)))
            whole_ = E.decide(b, LE(w, INT(r[1]))) is True and E.decide(b, LE(INT(r[0]), w)) is True
            out.append((b, w if whole_ else E.binop(b, k.capitalize(), args[0], args[1], dty, dty)))
        if a is None:
            return out
        live = a
    return out + [(live, E.simp(live, v))]


@pattern(r"num::<impl \w+>::saturating_sub$")
def m_sat_sub(E, st, fr, info, args, dty):
    if (E.int_range(dty) or (0,))[0] < 0:
        return NotImplemented
    a, b = fork(E, st, LE(args[1], args[0]))
    out = []
    if a is not None:
        out.append((a, E.simp(a, sub(args[0], args[1]))))
    if b is not None:
        out.append((b, ZERO))
    return out


@pattern(r"num::<impl \w+>::saturating_add$|std::num::NonZero::saturating_add$")
def m_sat_add(E, st, fr, info, args, dty):
    r = E.int_range(dty) or (-1, 0)
    if r[0] < 0:
        return NotImplemented
    v = add(args[0], args[1])
    a, b = fork(E, st, LE(v, INT(r[1])))
    out = []
    if a is not None:
        out.append((a, E.simp(a, v)))
    if b is not None:
        out.append((b, INT(r[1])))
    return out


def mul(a, b):
    if a.op == "int":
        return scale(b, a.a[0])
    if b.op == "int":
        return scale(a, b.a[0])
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("app", "mul", None, x, y)


@pattern(r"num::<impl \w+>::saturating_mul$")
def m_sat_mul(E, st, fr, info, args, dty):
    r = E.int_range(dty) or (-1, 0)
    if r[0] < 0:
        return NotImplemented
    v = mul(args[0], args[1])
    a, b = fork(E, st, LE(v, INT(r[1])))
    return [(s, x) for s, x in ((a, v), (b, INT(r[1]))) if s is not None]


@pattern(r"num::<impl \w+>::checked_(sub|add|mul)$")
def m_checked(E, st, fr, info, args, dty):
    k = info["name"]
    v = sub(args[0], args[1]) if k.endswith("sub") else add(args[0], args[1]) if k.endswith("add") else mul(args[0], args[1])
    r = E.int_range(payload_ty(E, dty, 1))
    out = []
    live = st
    for c in (LE(INT(r[0]), v), LE(v, INT(r[1]))):
        a, b = fork(E, live, c)
        if b is not None:
            out.append((b, none(dty)))
        if a is None:
            return out
        live = a
    out.append((live, some(dty, E.simp(live, v))))
    return out


@pattern(r"num::<impl \w+>::(wrapping_div|checked_div|div_euclid|wrapping_rem)$")
def m_wdiv(E, st, fr, info, args, dty):
    z = EQ(args[1], ZERO)
    a, b = fork(E, st, z)
    out = []
    if a is not None:
        if info["name"].startswith("checked"):
            out.append((a, none(dty)))
        else:
            E.panic(a, fr, "division by zero", (args[0], args[1]), b is None)
    if b is not None:
        v = E.binop(b, "Rem" if "rem" in info["name"] else "Div", args[0], args[1], dty, dty)
        out.append((b, some(dty, v) if info["name"].startswith("checked") else v))
    return out


@pattern(r"num::<impl \w+>::(abs_diff)$")
def m_abs_diff(E, st, fr, info, args, dty):
    a, b = fork(E, st, LE(args[1], args[0]))
    return [(s, E.simp(s, v)) for s, v in ((a, sub(args[0], args[1])), (b, sub(args[1], args[0]))) if s is not None]


@pattern(r"num::<impl \w+>::(to_le_bytes|to_ne_bytes|to_be_bytes)$")
def m_to_le(E, st, fr, info, args, dty):
    n = E.tyinfo(dty)["n"]
    v = args[0]
    u8 = E.p.ty("u8")
    order = range(n - 1, -1, -1) if info["name"].endswith("be_bytes") else range(n)
    if v.op == "int":
        return [(st, mk("agg", dty, 0, tuple(INT((v.a[0] >> (8 * i)) & 255) for i in order)))]
    return [(st, mk("agg", dty, 0, tuple(mk("app", "lebyte", u8, v, INT(i)) for i in order)))]


@pattern(r"num::<impl \w+>::(from_le_bytes|from_ne_bytes|from_be_bytes)$")
def m_from_le(E, st, fr, info, args, dty):
    v = args[0]
    big = info["name"].endswith("be_bytes")
    if v.op == "agg":
        t = ZERO
        for i, x in enumerate(reversed(v.a[2]) if big else v.a[2]):
            t = add(t, scale(x, 1 << (8 * i)))
        return [(st, t)]
    return [(st, mk("app", "frombe" if big else "fromle", dty, v))]


@pattern(r"num::<impl \w+>::(pow|isqrt|leading_zeros|trailing_zeros|count_ones|rotate_left|swap_bytes)$")
def m_opaque_num(E, st, fr, info, args, dty):
    return [(st, mk("app", info["name"], dty, *args))]


@model("std::num::NonZero::get")
def m_nz_get(E, st, fr, info, args, dty):
    return [(st, args[0])]


@model("std::num::NonZero::new")
def m_nz_new(E, st, fr, info, args, dty):
    v = args[0]
    a, b = fork(E, st, EQ(v, ZERO))
    out = []
    if a is not None:
        out.append((a, none(dty)))
    if b is not None:
        out.append((b, some(dty, v)))
    return out


@model("<std::num::NonZero as std::cmp::Ord>::max", "<std::num::NonZero as std::cmp::Ord>::min")
def m_nz_max(E, st, fr, info, args, dty):
    a, b = fork(E, st, LE(args[0], args[1]))
    mx = info["name"] == "max"
    return [(s, v) for s, v in ((a, args[1] if mx else args[0]), (b, args[0] if mx else args[1])) if s is not None]


@model("<std::num::NonZero as std::cmp::PartialEq>::eq")
def m_nz_eq(E, st, fr, info, args, dty):
    return [(st, E.eqlit(st, E.pointee(st, args[0]), E.pointee(st, args[1])))]


@model("<std::num::NonZero as std::cmp::Ord>::cmp", "<std::num::NonZero as std::cmp::PartialOrd>::partial_cmp")
def m_nz_cmp(E, st, fr, info, args, dty):
    a, b = E.pointee(st, args[0]), E.pointee(st, args[1])
    if info["name"] == "cmp":
        return [(st, E.binop(st, "Cmp", a, b, None, dty))]
    return [(st, some(dty, E.binop(st, "Cmp", a, b, None, payload_ty(E, dty, 1))))]


@pattern(r"^std::num::NonZero.*<impl std::convert::From for|<impl std::convert::From for std::num::NonZero>::from$|<impl std::convert::From for \w+>::from$")
def m_num_from(E, st, fr, info, args, dty):
    if E.int_range(dty) is None:
        return NotImplemented
    return [(st, args[0])]


@pattern(r"SaturatingFrom( for T)?>::saturating_from$")
def m_sat_from(E, st, fr, info, args, dty):
    r = E.int_range(dty)
    v = args[0]
    if r is None:
        return NotImplemented
    out = []
    live = st
    a, b = fork(E, live, LE(v, INT(r[1])))
    if b is not None:
        out.append((b, INT(r[1])))
    if a is not None:
        c, d = fork(E, a, LE(INT(r[0]), v))
        if c is not None:
            out.append((c, v))
        if d is not None:
            out.append((d, INT(r[0])))
    return out


@pattern(r"IntDivFloat>::div_float$")
def m_div_float(E, st, fr, info, args, dty):
    # None when the divisor is zero (or the quotient is not finite)
    a, b = fork(E, st, EQ(args[1], ZERO))
    out = []
    if a is not None:
        out.append((a, none(dty)))
    if b is not None:
        out.append((b, some(dty, mk("app", "fdiv", E.p.ty("f64"), args[0], args[1]))))
    return out


@model("std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min")
def m_max(E, st, fr, info, args, dty):
    if E.int_range(dty) is None:
        return NotImplemented
    a, b = fork(E, st, LE(args[0], args[1]))
    mx = info["name"] == "max"
    return [(s, v) for s, v in ((a, args[1] if mx else args[0]), (b, args[0] if mx else args[1])) if s is not None]


# ---- foreign formatting types --------------------------------------------------------------

@pattern(r"^dactyl::.*(NiceWrapper|NiceClock)(>|)::replace$|^dactyl::NiceClock::replace$")
def m_nice_replace(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[0])
    old = E.read(st, loc)
    ty = E.typeof(old)
    if ty is None:
        t = E.tyinfo((info.get("iargs") or [None])[0])
        ty = (info.get("iargs") or [None])[0] if t else None
    if loc[2]:
        ty = loc[2][-1][2]
    E.event(st, "nice", (type_name(E, ty) if ty is not None else "?", args[1], args[0]), fr)
    E.write(st, loc, mk("app", "nice", ty, args[1]))
    return [(st, E.unit())]


@pattern(r"^(dactyl::.*<impl std::convert::From for dactyl::NiceWrapper>|<dactyl::Nice\w+ as std::convert::From>)::from$")
def m_nice_from(E, st, fr, info, args, dty):
    return [(st, mk("app", "nice", dty, args[0]))]


@pattern(r"NiceInflection>::nice_inflect$")
def m_inflect(E, st, fr, info, args, dty):
    return [(st, mk("app", "inflect", dty, args[0], *[mk("sr", strv(E, st, x)) for x in args[1:]]))]


@model("utc2k::FmtUtc2k::now_local", "utc2k::FmtUtc2k::now")
def m_now_local(E, st, fr, info, args, dty):
    return [(st, fresh(E, dty, "now_local"))]


# ---- references, ownership -----------------------------------------------------------------

@model("std::sync::Arc::new", "std::rc::Rc::new", "std::boxed::Box::new")
def m_arc_new(E, st, fr, info, args, dty):
    root = E.heap(st, args[0], "arc")
    return [(st, mk("ref", root, ()))]


@model("<std::sync::Arc as std::ops::Deref>::deref", "<std::sync::Arc as std::convert::AsRef>::as_ref", "<std::sync::Arc as std::borrow::Borrow>::borrow")
def m_arc_deref(E, st, fr, info, args, dty):
    v = E.pointee(st, args[0])
    if v.op == "ref":
        return [(st, v)]
    return [(st, mk("app", "arcptr", dty, v))]


@model("<std::sync::Arc as std::clone::Clone>::clone")
def m_arc_clone(E, st, fr, info, args, dty):
    return [(st, E.pointee(st, args[0]))]


@model("<std::sync::Arc as std::default::Default>::default")
def m_arc_default(E, st, fr, info, args, dty):
    return NotImplemented


@model("drop:std::thread::JoinHandle")
def d_join_handle(E, st, fr, info, args, dty):
    E.event(st, "detach", (args[0],), fr)
    return [(st, E.unit())]


@model("drop:std::sync::Arc")
def m_arc_drop(E, st, fr, info, args, dty):
    E.event(st, "drop_arc", (args[0],), fr)
    return [(st, None)]


@model("std::mem::drop")
def m_mem_drop(E, st, fr, info, args, dty):
    ty = info["args"][0]
    root = E.heap(st, args[0], "dropped")
    outs = E.drop_loc(fr, st, ("mem", root, ()), ty, 0)
    return [(s, E.unit()) for s, u in outs if not u]


@model("std::mem::forget")
def m_forget(E, st, fr, info, args, dty):
    E.event(st, "forget", (args[0],), fr)
    return [(st, E.unit())]


@model("std::convert::AsRef::as_ref")
def m_as_ref(E, st, fr, info, args, dty):
    v = val(E, st, args[0])
    if v.op in ("rope", "sr"):
        return [(st, mk("sr", strv(E, st, v)))]
    if args[0].op != "ref" and v is args[0]:
        v = E.pointee(st, v)
    return [(st, mk("sr", whole(mk("app", "as_ref", None, v))))]


@model("std::convert::Into::into", "std::convert::From::from")
def m_into(E, st, fr, info, args, dty):
    aty = E.typeof(args[0])
    if aty == dty and aty is not None:
        return [(st, args[0])]
    if E.int_range(aty) is not None and E.int_range(dty) is not None and not E.is_char(dty) and not E.is_bool(aty):
        return [(st, args[0])]      # (lossless)
    if info["name"] == "into" and aty is not None:
        # the blanket implementation: our own conversion, when there is one
        idx = getattr(E.p, "from_impls", None)
        if idx is None:
            idx = E.p.from_impls = {}
            for b in E.p.list:
                if b["local"] and b["argc"] == 1 and b["path"].endswith("::from") and "as std::convert::From<" in (b["impl_trait"] or ""):
                    idx[(b["locals"][0], b["locals"][1])] = b["key"]
        k = idx.get((dty, aty))
        if k is not None:
            rets, unw = E.call_body(st, k, [args[0]], fr)
            return rets
    return [(st, mk("app", "into", dty, args[0]))]


@model("msg::kind::IntoMsgPrefix::prefix_len", "fyi_msg::msg::kind::IntoMsgPrefix::prefix_len")
def m_prefix_len(E, st, fr, info, args, dty):
    p = val(E, st, args[0])
    return [(st, mk("len", mk("app", "prefix", None, p)))]


@model("msg::kind::IntoMsgPrefix::prefix_push")
def m_prefix_push(E, st, fr, info, args, dty):
    p = val(E, st, args[0])
    loc = E.deref_loc(st, args[1])
    E.write(st, loc, cat(strv(E, st, E.read(st, loc)), whole(mk("app", "prefix", None, p))))
    return [(st, E.unit())]


@model("msg::kind::IntoMsgPrefix::prefix_str")
def m_prefix_str(E, st, fr, info, args, dty):
    p = val(E, st, args[0])
    return [(st, mk("agg", dty, 0, (mk("sr", whole(mk("app", "prefix", None, p))),)))]


@model("std::intrinsics::cold_path", "std::hint::spin_loop", "std::thread::yield_now")
def m_nop(E, st, fr, info, args, dty):
    return [(st, E.unit())]


@model("std::hint::must_use", "std::hint::black_box")
def m_ident(E, st, fr, info, args, dty):
    return [(st, args[0])]


# ---- synchronisation -----------------------------------------------------------------------

def lock_key(E, st, v, fr, ty):
    return "%s : %s" % (loc_name(E, st, v, fr), type_name(E, ty))


def do_lock(E, st, fr, v, ty):
    key = lock_key(E, st, v, fr, ty)
    E.event(st, "lock", (key, st.locks), fr)
    st.locks = st.locks + (key,)
    root = mk("mx", E.ctr, key)
    E.ctr += 1
    st.mem[root] = initial(E, st, v, ty)
    return mk("guard", key, root)


def initial(E, st, v, ty):
    return fresh(E, ty, "locked")


@model("<std::sync::Arc as std::default::Default>::default")
def m_arc_dflt(E, st, fr, info, args, dty):
    return [(st, fresh(E, dty, "arc default"))]


@model("std::sync::Mutex::lock")
def m_lock(E, st, fr, info, args, dty):
    ty = (info.get("iargs") or info["args"])[0]
    g = do_lock(E, st, fr, args[0], ty)
    return [(st, ok(dty, g))]


@model("std::sync::Mutex::try_lock")
def m_try_lock(E, st, fr, info, args, dty):
    ty = (info.get("iargs") or info["args"])[0]
    b = st.clone()
    n = len(st.locks)
    key = lock_key(E, st, args[0], fr, ty)
    E.event(st, "trylock", (key, st.locks), fr)
    st.locks = st.locks + (key,)
    root = mk("mx", E.ctr, key)
    E.ctr += 1
    st.mem[root] = initial(E, st, args[0], ty)
    return [(st, ok(dty, mk("guard", key, root))), (b, err(dty, fresh(E, payload_ty(E, dty, 1), "trylock")))]


@model("<std::sync::MutexGuard as std::ops::Deref>::deref", "<std::sync::MutexGuard as std::ops::DerefMut>::deref_mut")
def m_guard_deref(E, st, fr, info, args, dty):
    g = E.pointee(st, args[0])
    if g.op == "guard" and len(g.a) > 1:
        return [(st, mk("ref", g.a[1], ()))]
    return NotImplemented


@model("std::sync::PoisonError::into_inner", "std::sync::poison::PoisonError::into_inner")
def m_poison(E, st, fr, info, args, dty):
    return [(st, fresh(E, dty, "poison"))]


@model("std::sync::Mutex::new", "std::sync::OnceLock::new", "std::sync::Condvar::new")
def m_mutex_new(E, st, fr, info, args, dty):
    return [(st, mk("app", "new", dty, *args))]


@model("std::sync::atomic::Atomic::new")
def m_atomic_new(E, st, fr, info, args, dty):
    return [(st, mk("app", "new", dty, *args))]


def unlock_for_wait(E, st, fr, g):
    l = list(st.locks)
    if g.a[0] in l:
        l.remove(g.a[0])
    st.locks = tuple(l)


@model("std::sync::Condvar::wait_timeout", "std::sync::Condvar::wait", "std::sync::Condvar::wait_while", "std::sync::Condvar::wait_timeout_while")
def m_wait(E, st, fr, info, args, dty):
    g = args[1]
    if g.op != "guard":
        return NotImplemented
    E.event(st, "wait", (loc_name(E, st, args[0], fr), g.a[0], st.locks, "timeout" in info["name"]), fr)
    e = st.clone()
    unlock_for_wait(E, e, fr, g)
    E.event(e, "unlock", (g.a[0], None, None), fr)
    root = g.a[1]      # the same critical section as far as the caller can tell, with new contents
    iargs = info.get("iargs") or info["args"]
    st.mem[root] = fresh(E, iargs[0], "locked")
    ng = g
    pt = payload_ty(E, dty, 0)
    if "timeout" in info["name"]:
        tt = E.tyinfo(pt)
        v = mk("agg", pt, 0, (ng, fresh(E, tt["f"][1], "timeout")))
    else:
        v = ng
    return [(st, ok(dty, v)), (e, err(dty, mk("uninit")))]


@model("std::sync::Condvar::notify_all", "std::sync::Condvar::notify_one")
def m_notify(E, st, fr, info, args, dty):
    E.event(st, info["name"], (loc_name(E, st, args[0], fr), st.locks), fr)
    return [(st, E.unit())]


def atomic_expr(E, st, op, old, x, ty):
    r = E.int_range(ty)
    if op == "swap" or op == "store":
        return x
    if op == "fetch_or":
        return E.bitop(st, "BitOr", old, x, ty)
    if op == "fetch_and":
        return E.bitop(st, "BitAnd", old, x, ty)
    if op == "fetch_xor":
        return E.bitop(st, "BitXor", old, x, ty)
    if op == "fetch_nand":
        return mk("app", "nand", ty, old, x)
    if op == "fetch_add":
        return E.binop(st, "Add", old, x, ty, ty)
    if op == "fetch_sub":
        return E.binop(st, "Sub", old, x, ty, ty)
    return mk("app", op, ty, old, x)


@pattern(r"^std::sync::atomic::Atomic::(load|store|swap|fetch_\w+|compare_exchange(_weak)?|compare_and_swap|update|try_update|into_inner|get_mut)$")
def m_atomic(E, st, fr, info, args, dty):
    op = info["name"]
    mt = re.search(r"Atomic(?:::)?<(\w+)>", info.get("iself") or info.get("ipath") or info["path"])
    ty = E.p.ty(mt.group(1)) if mt else (info.get("iargs") or info["args"])[0]
    if op in ("into_inner", "get_mut"):
        return NotImplemented
    key = loc_name(E, st, args[0], fr)
    if op == "load":
        v = atomic_initial(E, st, key, ty)
        E.event(st, "aload", (key, v, args[1]), fr)
        return [(st, v)]
    if op == "store":
        E.event(st, "astore", (key, args[1]), fr)
        return [(st, E.unit())]
    if op in ("swap", "fetch_or", "fetch_and", "fetch_xor", "fetch_add", "fetch_sub", "fetch_max", "fetch_min", "fetch_nand"):
        old = atomic_initial(E, st, key, ty)
        E.event(st, "armw", (key, old, atomic_expr(E, st, op, old, args[1], ty), op, args[1]), fr)
        return [(st, old)]
    if op.startswith("compare_exchange"):
        old = atomic_initial(E, st, key, ty)
        s2 = st.clone()
        out = []
        if E.assume(st, E.eqlit(st, old, args[1]), True):
            E.event(st, "armw", (key, args[1], args[2], "cas", old), fr)
            out.append((st, ok(dty, args[1])))
        E.event(s2, "aload", (key, old, None), fr)
        if "weak" in op or E.assume(s2, E.eqlit(s2, old, args[1]), False):
            out.append((s2, err(dty, old)))
        return out
    if op in ("fetch_update", "try_update", "update"):
        f = args[3]
        old = atomic_initial(E, st, key, ty)
        E.event(st, "atry", (key, old), fr)
        r = E.call_closure(fr, st, f, [old], None)
        if r is None:
            return NotImplemented
        out = []
        for s, v in r[0]:
            if op == "update":
                E.event(s, "armw", (key, old, v, "update", None), fr)
                out.append((s, old))
                continue
            if v.op != "agg":
                s.weak = s.weak or "fetch_update"
                E.event(s, "armw", (key, old, fresh(E, ty, "upd"), "update", None), fr)
                out.append((s, ok(dty, old)))
                continue
            if v.a[1] == 1:
                E.event(s, "armw", (key, old, v.a[2][0], "update", None), fr)
                out.append((s, ok(dty, old)))
            else:
                E.event(s, "aload", (key, old, None), fr)
                out.append((s, err(dty, old)))
        return out
    return NotImplemented


def atomic_initial(E, st, key, ty):
    if E.fixed and key in E.fixed:
        return INT(E.fixed[key])
    return fresh(E, ty, "atomic:" + key)


@model("std::sync::OnceLock::get_or_init")
def m_once(E, st, fr, info, args, dty):
    E.event(st, "once", (loc_name(E, st, args[0], fr), args[1]), fr)
    return [(st, mk("app", "once", dty, args[0].a[0] if args[0].op == "ref" else args[0]))]


@model("std::sync::OnceLock::get", "std::sync::OnceLock::set")
def m_once2(E, st, fr, info, args, dty):
    E.event(st, "once_" + info["name"], (loc_name(E, st, args[0], fr),) + tuple(args[1:]), fr)
    return [(st, fresh(E, dty, "once"))]


@model("std::thread::spawn", "std::thread::Builder::spawn")
def m_spawn(E, st, fr, info, args, dty):
    E.event(st, "spawn", (args[0], st.locks), fr)
    return [(st, fresh(E, dty, "spawned"))]


@model("std::thread::JoinHandle::join")
def m_join(E, st, fr, info, args, dty):
    E.event(st, "join", (args[0], st.locks), fr)
    return [(st, ok(dty, E.unit()))]


@model("std::time::Instant::now", "std::time::Instant::elapsed", "std::time::Duration::as_secs", "std::time::Duration::from_millis", "std::time::Duration::as_millis",
       "std::time::SystemTime::now")
def m_time(E, st, fr, info, args, dty):
    n = info["name"]
    if n in ("now", "elapsed"):
        E.event(st, "time", (n,), fr)
        return [(st, fresh(E, dty, n))]
    return [(st, mk("app", n, dty, args[0] if args[0].op != "ref" else val(E, st, args[0])))]


# ---- sets ----------------------------------------------------------------------------------

@model("<std::collections::BTreeSet as std::default::Default>::default", "std::collections::BTreeSet::new")
def m_set_new(E, st, fr, info, args, dty):
    return [(st, mk("app", "emptyset", dty))]


def set_loc(E, st, v, fr):
    loc = E.deref_loc(st, v)
    name = loc[1].a[1] if loc[1].op == "mx" else loc_name(E, st, v, fr)
    return loc, name


@model("std::collections::BTreeSet::insert")
def m_set_insert(E, st, fr, info, args, dty):
    loc, name = set_loc(E, st, args[0], fr)
    old = E.read(st, loc)
    r = strv(E, st, args[1])
    res = mk("app", "set_new", E.p.ty("bool"), old, r)
    E.event(st, "set_insert", (name, r, res), fr)
    E.write(st, loc, mk("app", "set_ins", E.typeof(old), old, r))
    return [(st, res)]


@model("std::collections::BTreeSet::remove")
def m_set_remove(E, st, fr, info, args, dty):
    loc, name = set_loc(E, st, args[0], fr)
    old = E.read(st, loc)
    r = strv(E, st, args[1])
    res = mk("app", "set_has", E.p.ty("bool"), old, r)
    out = []
    a, b = fork(E, st, res, fr, True)
    if a is not None:
        E.event(a, "set_remove", (name, r, True), fr)
        E.write(a, loc, mk("app", "set_del", E.typeof(old), old, r))
        out.append((a, TRUE))
    if b is not None:
        E.event(b, "set_remove", (name, r, False), fr)
        out.append((b, FALSE))
    return out


@model("std::collections::BTreeSet::contains")
def m_set_contains(E, st, fr, info, args, dty):
    loc, name = set_loc(E, st, args[0], fr)
    old = E.read(st, loc)
    r = strv(E, st, args[1])
    return [(st, mk("app", "set_has", E.p.ty("bool"), old, r))]


@model("std::collections::BTreeSet::clear")
def m_set_clear(E, st, fr, info, args, dty):
    loc, name = set_loc(E, st, args[0], fr)
    old = E.read(st, loc)
    E.event(st, "set_clear", (name,), fr)
    E.write(st, loc, mk("app", "emptyset", E.typeof(old)))
    return [(st, E.unit())]


@model("std::collections::BTreeSet::len")
def m_set_len(E, st, fr, info, args, dty):
    v = E.pointee(st, args[0])
    return [(st, mk("len", v))]


@model("std::collections::BTreeSet::is_empty")
def m_set_is_empty(E, st, fr, info, args, dty):
    v = E.pointee(st, args[0])
    return [(st, EQ(mk("len", v), ZERO))]


# ---- input/output --------------------------------------------------------------------------

@model("std::io::stderr", "std::io::stdout", "std::io::stdin")
def m_stream(E, st, fr, info, args, dty):
    return [(st, mk("sym", "stream:" + info["name"], dty))]


@model("std::io::Stderr::lock", "std::io::Stdout::lock")
def m_stream_lock(E, st, fr, info, args, dty):
    s = "stderr" if "Stderr" in (info.get("ipath") or info["path"]) else "stdout"
    E.event(st, "lock", (s, st.locks), fr)
    st.locks = st.locks + (s,)
    return [(st, mk("guard", s))]


def stream_of(E, st, v):
    g = v
    for _ in range(4):
        if g.op == "ref":
            g = E.read(st, ("mem", g.a[0], g.a[1]))
    if g.op == "guard":
        return g.a[0], True
    if g.op == "sym" and str(g.a[0]).startswith("stream:"):
        return g.a[0][7:], False
    t = type_name(E, E.typeof(g)) if E.typeof(g) is not None else ""
    if "StderrLock" in t:
        return "stderr", True
    if "StdoutLock" in t:
        return "stdout", True
    if "Stderr" in t:
        return "stderr", False
    if "Stdout" in t:
        return "stdout", False
    return None, False


@pattern(r"^<&?std::io::(Stderr|Stdout)(Lock)? as std::io::Write>::(write_all|write|flush|write_vectored|write_fmt)$")
def m_write(E, st, fr, info, args, dty):
    s, locked = stream_of(E, st, args[0])
    if s is None:
        s = "stderr" if "Stderr" in info["ipath"] else "stdout"
        locked = "Lock" in info["ipath"]
    n = info["name"]
    if not locked:
        E.event(st, "lock", (s, st.locks), fr)
    if n == "flush":
        E.event(st, "flush", (s, st.locks), fr)
    elif n == "write_vectored":
        E.event(st, "writev", (s, slices(E, st, args[1]), st.locks), fr)
    elif n == "write_fmt":
        E.event(st, "write", (s, render(E, st, args[1]), st.locks), fr)
    else:
        E.event(st, "write" if n == "write_all" else "write_some", (s, strv(E, st, args[1]), st.locks), fr)
    if not locked:
        E.event(st, "unlock", (s, None, None), fr)
    pt = payload_ty(E, dty, 0)
    if getattr(E, "ideal", False):
        # a stream that takes everything it is given
        if n == "write":
            return [(st, ok(dty, rope_len(strv(E, st, args[1]))))]
        if n != "write_vectored":
            return [(st, ok(dty, E.unit()))]
        got = mk("app", "everything", pt)
        E.assume(st, EQ(got, ZERO), False)
        return [(st, ok(dty, got))]
    b = st.clone()
    okv = E.unit() if n in ("write_all", "flush", "write_fmt") else fresh(E, pt, "written")
    E.event(b, "ioerr", (s, n), fr)
    return [(st, ok(dty, okv)), (b, err(dty, fresh(E, payload_ty(E, dty, 1), "ioerr")))]


@pattern(r"^<std::io::(Stderr|Stdout)(Lock<.*>|Lock)? as std::os::fd::As(Raw)?Fd>::as_(raw_)?fd$")
def m_as_fd(E, st, fr, info, args, dty):
    s = "stderr" if "Stderr" in info["ipath"] else "stdout"
    return [(st, mk("app", "fd:" + s, dty))]


def fd_of(E, st, a):
    v = val(E, st, a)
    while v.op == "app" and v.a[0] == "into":
        v = v.a[2]
    return v


@pattern(r"^std::os::fd::(BorrowedFd|OwnedFd)(::<.*>)?::(try_clone_to_owned|try_clone)$")
def m_fd_clone(E, st, fr, info, args, dty):
    v = fd_of(E, st, args[0])
    if v.op != "app" or not str(v.a[0]).startswith("fd:"):
        return NotImplemented
    b = st.clone()
    E.event(b, "fderr", (v.a[0][3:],), fr)
    return [(st, ok(dty, mk("app", v.a[0], payload_ty(E, dty, 0)))), (b, err(dty, fresh(E, payload_ty(E, dty, 1), "ioerr")))]


@pattern(r"^<std::fs::File as std::convert::From<std::os::fd::OwnedFd>>::from$", r"^<std::fs::File as std::convert::From>::from$")
def m_file_from(E, st, fr, info, args, dty):
    v = fd_of(E, st, args[0])
    if v.op != "app" or not str(v.a[0]).startswith("fd:"):
        return NotImplemented
    return [(st, mk("app", v.a[0], dty))]


@pattern(r"^std::io::Write::write_all$", r"^<&?std::fs::File as std::io::Write>::(write|flush|write_all)$")
def m_file_write(E, st, fr, info, args, dty):
    v = fd_of(E, st, args[0])
    if v.op != "app" or not str(v.a[0]).startswith("fd:"):
        return NotImplemented
    n = info["name"]
    s = v.a[0][3:]
    if n == "flush":
        E.event(st, "flush", (s, st.locks), fr)
    else:
        E.event(st, "write" if n == "write_all" else "write_some", (s, strv(E, st, args[1]), st.locks), fr)
    b = st.clone()
    pt = payload_ty(E, dty, 0)
    E.event(b, "ioerr", (s, n), fr)
    return [(st, ok(dty, E.unit() if n != "write" else fresh(E, pt, "written"))), (b, err(dty, fresh(E, payload_ty(E, dty, 1), "ioerr")))]


@pattern(r"std::io::Write::write_fmt$")
def m_write_fmt(E, st, fr, info, args, dty):
    s, locked = stream_of(E, st, args[0])
    if s is None:
        return NotImplemented
    if not locked:
        E.event(st, "lock", (s, st.locks), fr)
    E.event(st, "write", (s, render(E, st, args[1]), st.locks), fr)
    if not locked:
        E.event(st, "unlock", (s, None, None), fr)
    b = st.clone()
    E.event(b, "ioerr", (s, "write_fmt"), fr)
    return [(st, ok(dty, E.unit())), (b, err(dty, fresh(E, payload_ty(E, dty, 1), "ioerr")))]


def slices(E, st, v):
    x = val(E, st, v)
    if x.op == "agg":
        return mk("slices", *[y for y in x.a[2]])
    return mk("slices", x)


@model("std::io::IoSlice::new")
def m_ioslice(E, st, fr, info, args, dty):
    return [(st, mk("sr", strv(E, st, args[0])))]


@pattern(r"^<std::io::IoSlice<.*> as std::(ops::Deref|convert::AsRef<.*>)>::(deref|as_ref)$")
def m_ioslice_deref(E, st, fr, info, args, dty):
    return [(st, mk("sr", strv(E, st, args[0])))]


@model("std::io::IoSlice::advance_slices")
def m_advance(E, st, fr, info, args, dty):
    E.event(st, "advance", (slices(E, st, args[0]), args[1]), fr)
    loc = E.deref_loc(st, args[0])
    if args[1].op == "int" and args[1].a[0] == 0:
        return [(st, E.unit())]
    cur = E.read(st, loc)
    if args[1].op == "app" and args[1].a[0] == "everything":
        E.write(st, loc, mk("sr", EMPTY))
        return [(st, E.unit())]
    E.write(st, loc, mk("app", "advanced", E.typeof(cur), cur, args[1]))
    return [(st, E.unit())]


@model("std::io::_print", "std::io::_eprint", "std::io::stdio::_print", "std::io::stdio::_eprint")
def m_eprint(E, st, fr, info, args, dty):
    s = "stderr" if info["name"] == "_eprint" else "stdout"
    E.event(st, "lock", (s, st.locks), fr)
    E.event(st, "write", (s, render(E, st, args[0]), st.locks + (s,)), fr)
    E.event(st, "unlock", (s, None, None), fr)
    E.event(st, "may_panic", ("print to " + s,), fr)
    return [(st, E.unit())]


@model("std::io::Stdin::read_line", "std::io::StdinLock::read_line")
def m_read_line(E, st, fr, info, args, dty):
    loc = E.deref_loc(st, args[1])
    cur = strv(E, st, E.read(st, loc))
    line = fresh(E, None, "line")
    E.event(st, "read_line", (cur, line), fr)
    E.write(st, loc, cat(cur, whole(line)))
    b = st.clone()
    E.event(b, "ioerr", ("stdin", "read_line"), fr)
    return [(st, ok(dty, fresh(E, payload_ty(E, dty, 0), "nread"))), (b, err(dty, fresh(E, payload_ty(E, dty, 1), "ioerr")))]


@model("std::io::Error::kind", "<std::io::ErrorKind as std::cmp::PartialEq>::eq")
def m_io_kind(E, st, fr, info, args, dty):
    if info["name"] == "eq":
        return [(st, mk("app", "kind_eq", dty, val(E, st, args[0]), val(E, st, args[1])))]
    return [(st, mk("app", "errkind", dty, val(E, st, args[0])))]


@model("terminal_size::terminal_size_of", "terminal_size::terminal_size")
def m_term(E, st, fr, info, args, dty):
    E.event(st, "term_size", (), fr)
    return [(st, fresh(E, dty, "termsize"))]


@model("std::env::args_os", "argyle::args")
def m_args_os(E, st, fr, info, args, dty):
    return [(st, mk("sym", info["name"], dty))]


# ---- formatting ----------------------------------------------------------------------------

@pattern(r"^std::fmt::rt::Argument::new_\w+$")
def m_fmtarg(E, st, fr, info, args, dty):
    return [(st, mk("fmtarg", info["name"], args[0]))]


@model("std::fmt::Arguments::new")
def m_arguments(E, st, fr, info, args, dty):
    t = rope_lit(strv(E, st, args[0]))
    a = val(E, st, args[1])
    if t is None or a.op != "agg":
        return [(st, mk("fmt", whole(fresh(E, None, "fmt"))))]
    return [(st, mk("fmt", template(E, st, t, a.a[2])))]


@model("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const")
def m_arguments_str(E, st, fr, info, args, dty):
    return [(st, mk("fmt", strv(E, st, args[0])))]


def template(E, st, t, argv):
    out = []
    i = n = 0
    while i < len(t):
        c = t[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(rlit(t[i:i + c]))
            i += c
        elif c == 0x80:
            l = t[i] | t[i + 1] << 8
            out.append(rlit(t[i + 2:i + 2 + l]))
            i += 2 + l
        else:
            plain = c == 0xC0
            if c & 1:
                i += 4
            if c & 2:
                i += 2
            if c & 4:
                i += 2
            if c & 8:
                n = t[i] | t[i + 1] << 8
                i += 2
            out.append(display(E, st, argv[n], plain))
            n += 1
    return cat(*out)


def display(E, st, a, plain):
    v = a.a[1] if a.op == "fmtarg" else a
    x = val(E, st, v)
    kind = a.a[0] if a.op == "fmtarg" else "?"
    t = E.tyinfo(E.typeof(x))
    if plain and kind == "new_display":
        if x.op in ("rope", "sr"):
            return strv(E, st, x)
        if t and t["s"] in ("&str", "std::string::String", "&std::string::String", "str") or t and "Cow<" in t["s"] and "str" in t["s"]:
            return strv(E, st, x)
        if x.op == "fmt":
            return x.a[0]
    return whole(mk("app", "display" if plain else "display:" + kind, None, x))


def render(E, st, a):
    v = val(E, st, a)
    if v.op == "fmt":
        return v.a[0]
    return whole(mk("app", "display", None, v))


@model("std::fmt::format", "std::fmt::format::format_inner")
def m_format(E, st, fr, info, args, dty):
    return [(st, render(E, st, args[0]))]


@pattern(r"^<str as std::fmt::Display>::fmt$|^std::fmt::Formatter::(write_str|write_fmt|pad)$")
def m_fmt_str(E, st, fr, info, args, dty):
    if info["name"] == "fmt":
        v, f = args[0], args[1]
    else:
        f, v = args[0], args[1]
    r = render(E, st, v) if info["name"] == "write_fmt" else strv(E, st, v)
    E.event(st, "fmt", (info["name"], r), fr)
    b = st.clone()
    return [(st, ok(dty, E.unit())), (b, err(dty, fresh(E, payload_ty(E, dty, 1), "fmterr")))]


@pattern(r"^std::fmt::Formatter::debug_\w+$")
def m_fmt_debug(E, st, fr, info, args, dty):
    return [(st, fresh(E, dty, "debug"))]


# ---- process and signals -------------------------------------------------------------------

@model("std::process::exit", "signal_hook::low_level::exit", "std::process::abort")
def m_exit(E, st, fr, info, args, dty):
    E.event(st, "exit", (info.get("ipath") or info["path"],) + tuple(args), fr)
    E.diverged = getattr(E, "diverged", [])
    E.diverged.append(st)
    return []


@model("signal_hook::low_level::register", "signal_hook_registry::register", "signal_hook::low_level::register_unchecked")
def m_sig_register(E, st, fr, info, args, dty):
    E.event(st, "sig_register", (args[0], args[1]), fr)
    b = st.clone()
    E.event(b, "sig_fail", (args[0],), fr)
    return [(st, ok(dty, fresh(E, payload_ty(E, dty, 0), "sigid"))), (b, err(dty, fresh(E, payload_ty(E, dty, 1), "sigerr")))]


@model("signal_hook::flag::register")
def m_sig_flag(E, st, fr, info, args, dty):
    E.event(st, "sig_flag", (args[0], args[1]), fr)
    b = st.clone()
    return [(st, ok(dty, fresh(E, payload_ty(E, dty, 0), "sigid"))), (b, err(dty, fresh(E, payload_ty(E, dty, 1), "sigerr")))]


@model("signal_hook::low_level::unregister")
def m_sig_unreg(E, st, fr, info, args, dty):
    E.event(st, "sig_unregister", (args[0],), fr)
    return [(st, fresh(E, dty, "unreg"))]


@pattern(r"^<std::process::ExitCode as std::(convert::From|cmp::PartialEq|clone::Clone)>::")
def m_exitcode(E, st, fr, info, args, dty):
    n = info["name"]
    if n == "from":
        return [(st, mk("app", "exitcode", dty, args[0]))]
    if n == "clone":
        return [(st, E.pointee(st, args[0]))]
    a, b = val(E, st, args[0]), val(E, st, args[1])
    f = lambda v: v.a[2] if v.op == "app" and v.a[0] == "exitcode" else None
    if f(a) is not None and f(b) is not None:
        return [(st, EQ(f(a), f(b)))]
    return [(st, mk("same", *sorted((a, b), key=lambda t: t.id)))]


# ---- panics --------------------------------------------------------------------------------

@pattern(r"panicking::|::unwrap_failed|::expect_failed|rt::begin_panic|slice_index_fail|slice_error_fail|unwrap_failed_inner|panic_display|panic_str|capacity_overflow")
def m_panic(E, st, fr, info, args, dty):
    E.panic(st, fr, "panic:" + (info.get("ipath") or info["path"]), tuple(args), True)
    E.event(st, "panic", (info.get("ipath") or info["path"],), fr)
    E.panicked = getattr(E, "panicked", [])
    E.panicked.append(st)
    return []


@model("std::mem::size_of", "std::intrinsics::size_of")
def m_size_of(E, st, fr, info, args, dty):
    t = E.tyinfo((info.get("iargs") or info["args"])[0]) or {}
    if t.get("k") in ("uint", "int") and t.get("bits"):
        return [(st, INT(t["bits"] // 8))]
    return NotImplemented


@pattern(r"^std::array::<impl std::default::Default for \[T; .*\]>::default$")
def m_array_default(E, st, fr, info, args, dty):
    t = E.tyinfo(dty) or {}
    fts = E.field_types(dty, 0)
    if t.get("k") != "array" or fts is None or E.int_range(t["e"]) is None:
        return NotImplemented
    return [(st, mk("agg", dty, 0, tuple(ZERO for _ in fts)))]


@pattern(r"^<std::str::(Chars|CharIndices)(<.*>)? as std::iter::Iterator>::count$")
def m_chars_count(E, st, fr, info, args, dty):
    v = args[0]
    if v.op != "it" or v.a[0] not in ("chars", "charidx"):
        return NotImplemented
    r = v.a[1]
    if E.decide(st, EQ(v.a[2], ZERO)) is not True or E.decide(st, EQ(v.a[3], rope_len(r))) is not True:
        return NotImplemented
    n = mk("app", "nchars", E.p.ty("usize"), r)
    E.assume(st, LE(ZERO, n), True)
    E.assume(st, LE(n, rope_len(r)), True)
    return [(st, n)]
