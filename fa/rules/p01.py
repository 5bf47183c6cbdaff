"""Compile-time witness: a generated client crate holds one constant per macro use (every keyword alone, every
keyword combined with style keywords in both orders, all ordered style pairs, class triples and quadruples, every
content macro); the compiler's evaluated constants are compared with the documented code table."""
import itertools
import json
import os
import re

from .. import build

BUILD_FAILURE_IS_VIOLATION = True

STYLES = {"reset": "0", "!reset": "0", "!fg": "39", "bold": "1", "dim": "2", "italic": "3", "underline": "4", "blink": "5",
          "strike": "9", "!bold": "21", "!dim": "22", "!italic": "23", "!underline": "24", "!blink": "25", "!strike": "29"}


def snake(n):
    return re.sub(r"(?<=[a-z])(?=[A-Z])", "_", n).lower()


def color_code(n):
    return "3%d" % n if n < 8 else "9%d" % (n - 8) if n < 16 else "38;5;%d" % n


def table():
    names = json.load(open(os.path.join(build.VERIF, "spec", "color_names.json")))
    t = dict(STYLES)
    for n, name in enumerate(names):
        t[str(n)] = color_code(n)
        t["!%d" % n] = "39"
        if not name.startswith("Misc"):
            t[snake(name)] = color_code(n)
            t["!" + snake(name)] = "39"
    return t


def rust_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\x1b", "\\x1b") + '"'


def run(ctx):
    t = table()
    styles = sorted(STYLES)
    colors = sorted(k for k in t if k not in STYLES)
    seqs = [(k,) for k in sorted(t)]
    for k in colors:
        for s in ("bold", "!dim", "reset"):
            seqs += [(s, k), (k, s)]
    seqs += list(itertools.product(styles, repeat=2))
    cls = ["bold", "!underline", "199", "!7", "light_cyan", "!dark_orange", "reset"]
    seqs += list(itertools.product(cls, repeat=3))
    cls4 = ["dim", "!bold", "9", "!199", "blue"]
    seqs += list(itertools.product(cls4, repeat=4))
    if ctx.thorough:
        seqs += list(itertools.product(styles, repeat=3))
        seqs += list(itertools.product(cls4, repeat=5))
    seqs += [tuple(cls), tuple(reversed(cls)), tuple(styles)]
    seqs = list(dict.fromkeys(seqs))
    consts = []  # (expr, expected)
    consts.append(("csi!()", "\x1b[0m"))
    for s in seqs:
        consts.append(("csi!(%s)" % ", ".join(s), "\x1b[" + ";".join(t[k] for k in s) + "m"))
    contents = [('"Hi"', "Hi"), ('"a", "b"', "ab"), ('"a", "b", "c",', "abc"), ('1, \'x\', true', "1xtrue"), ('""', ""),
                ('"x\\n"', "x\n"), ('"{}"', "{}"), ('concat!("q", "r")', "qr")]
    for src, val in contents:
        for s in [("bold",), ("!fg", "dim"), ("199", "underline"), ("reset", "bold", "light_red"), ("!bold", "!dim", "3"), ("cornflower_blue",)]:
            consts.append(("ansi!((%s) %s)" % (", ".join(s), src), "\x1b[" + ";".join(t[k] for k in s) + "m" + val + "\x1b[0m"))
        for m in ("blink", "bold", "dim", "italic", "strike", "underline"):
            consts.append(("%s!(%s)" % (m, src), "\x1b[" + t[m] + "m" + val + "\x1b[0m"))
    consts.append(('bold!("a", dim!("b"), "c")', "\x1b[1ma\x1b[2mb\x1b[0mc\x1b[0m"))
    consts.append(('concat!("[", csi!(dim), "]", csi!())', "[\x1b[2m]\x1b[0m"))
    src = "#![allow(unused_imports)]\nuse fyi_ansi::{ansi, blink, bold, csi, dim, italic, strike, underline};\n"
    src += "".join("pub const C%d: &str = %s;\n" % (i, e) for i, (e, _) in enumerate(consts))
    d = build.dump_witness("p01", src, {"fyi_ansi": ""})
    got = {c["path"]: c["v"] for c in d["consts"]}
    for i, (e, want) in enumerate(consts):
        v = got.get("C%d" % i)
        val = v[1][1] if v and v[0] == "ref" and v[1][0] == "str" else None
        if val is None:
            ctx.undecide("const:" + e, "no evaluated constant for %s" % e)
        else:
            ctx.oblige(val == want, "macro:" + e, "fyi_ansi/src/lib.rs: %s expands to %r, documented: %r" % (e, val, want),
                       "%s == %r" % (e, val))
    ctx.count("keywords", len(t))
    ctx.count("expansions", len(consts))
    ctx.floor("keywords", 500)
    ctx.trusted = ["rustc macro expansion and constant evaluation", "spec/color_names.json (published colour names)"]
